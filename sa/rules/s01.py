"""Remote content is fetched only behind the URI-read permission.

Sinks: every call of the resolver trait's `resolve`.  On every path from every
public entry to such a call, either the target is known to be a file path or
the attribute test `is_true("allow-uri-read")` succeeded.  The network API is
reachable only through the resolver implementation's URI arm, and the
permission attribute is settable only by the embedding job."""
import gates
from common import where, strs, expr_any
from mir import short
from engine import Explorer, Spec
from rules import attrs

ATTR = "allow-uri-read"
NET = ("minreq::", "reqwest::", "ureq::", "std::net::", "hyper::", "curl::", "attohttpc::", "isahc::", "tokio::net")


def permission(e):
    return e[0] == "call" and e[3] == "ReadAttr::is_true" and len(e[2]) == 2 and e[2][1] == ("k", ATTR)


class NetSpec(Spec):
    def __init__(self, carriers):
        self.carriers, self.ev = carriers, []

    def track(self, fr, e, kind):
        return ("discr", e[1]) if kind == "discr" and e[2] == "IncludeTarget" else None

    def descend(self, path):
        return path in self.carriers

    def call(self, fr, bi, t, names, args, st):
        p = names[2][2] or names[2][1]
        if p.lstrip("<&").startswith(NET):
            first = any(expr_any(a, lambda x: x[0] == "as" and x[2] == "Uri") for a in args)
            arm = any(isinstance(k, tuple) and k[0] == "discr" and v == frozenset(["Uri"]) for k, v in st[1])
            self.ev.append((t[5], first or arm))
        return None


def target_param(P, path, d=0):
    """index of the parameter that `path` passes on as the resolver's target, if that is all it does with targets"""
    fn = P.fns.get(path)
    if fn is None or d > 3 or fn.kind == "Closure":
        return None
    got = set()
    for bi, t in fn.calls():
        if t[1][0] != "fn":
            continue
        if short(t[1][1]) == "IncludeResolver::resolve":
            e = fn.sym_op(t[2][1])
        else:
            e = None
            for c in P.callees(t[1]):
                k = target_param(P, c, d + 1) if c in P.fns and any("IncludeTarget" in P.fns[c].ty(i + 1) for i in range(P.fns[c].argc)) else None
                if k is not None and k < len(t[2]):
                    e = fn.sym_op(t[2][k])
            if e is None:
                continue
        got.add(e[1] - 1 if e[0] == "arg" and "&" not in fn.ty(e[1]) else None)
    return got.pop() if len(got) == 1 else None


def run(P, R, tier):
    R.rule("must-pass-through: resolver.resolve(target) <= target is FilePath  OR  is_true(\"%s\") == true" % ATTR)
    R.rule("who-may-call: network client API only inside IncludeResolver implementations, on a Uri target")

    def key(fr, e, kind):
        if kind == "bool":
            if permission(e):
                return "URI_OK"
            if e[0] == "call" and e[1].endswith("::is_uri"):
                return ("is_uri", e[2])
        if kind == "discr" and e[2] == "IncludeTarget":
            return ("discr", e[1])
        return None

    sinks, direct = set(), set()
    for fn in P.bodies():
        for bi, t in fn.calls():
            if t[1][0] != "fn":
                continue
            tn = short(t[1][1])
            if tn == "IncludeResolver::resolve":
                sinks.add(fn.path)
                R.count("resolver call sites", 1)
            if permission(fn.sym_call(t)):
                direct.add(fn.path)
                R.count("permission tests", 1)
    # delegating implementations of the trait (Box<dyn ..>) are not document-driven sinks
    sinks = {s for s in sinks if "as IncludeResolver>" not in short(s)}
    helpers = gates.helper_set(P, direct, sinks)
    # helpers that classify a target
    for fn in P.bodies():
        if fn.ty(0) == "bool" and any("IncludeTarget" in fn.ty(i) for i in range(1, fn.argc + 1)) and len(fn.blocks) < 20 \
                and not fn.short.startswith("<"):
            helpers.add(fn.path)

    def mk(sub):
        def is_sink(fr, t, names, args):
            if sub is None:
                return "resolve" if names[1] == "IncludeResolver::resolve" else None
            if sub in P.callees(names[2]) or any(a[0] == "closure" and a[1] == sub for a in args):
                return sub
            return None

        def gated(fr, t, names, args, facts):
            if facts.get("URI_OK") is True:
                return True
            i = 1 if sub is None else target_param(P, sub)
            if i is not None and len(args) > i:
                tg = args[i]
                if Explorer.tag(tg) == "FilePath":
                    return True
                if facts.get(("discr", tg)) == frozenset(["FilePath"]):
                    return True
            return False
        def sink_like(fn, t):
            if sub is None:
                return t[1][0] == "fn" and short(t[1][1]) == "IncludeResolver::resolve"
            if sub in P.callees(t[1]):
                return True
            return P.fns[sub].kind == "Closure" and expr_any(fn.sym_call(t), lambda e: e[0] == "closure" and e[1] == sub)
        return gates.GateSpec(P, is_sink, key, gated, helpers, sink_like)

    for chain in gates.open_paths(P, sinks, mk, R, lambda f: f.path in direct or any(c[0] in helpers for c in P.callgraph()[f.path])):
        fn, line = chain[-1]
        R.bad("uri-gate:" + fn.short,
              "a URI target can reach the resolver without the `%s` test; path: %s" % (
                  ATTR, " -> ".join(where(f, l) for f, l in chain)))
    R.floor("resolver call sites", 1)
    R.floor("permission tests", 1)

    # network client API: only below a resolver implementation's Uri arm
    rev = P.rev()
    net = set()
    for fn in P.bodies():
        for bi, t in fn.calls():
            if t[1][0] == "fn" and (t[1][2] or t[1][1]).lstrip("<&").startswith(NET):
                net.add(fn.path)
                R.count("network API call sites", 1)
    R.floor("network API call sites", 1)
    carriers, roots, st = set(), set(), list(net)
    while st:
        p = st.pop()
        if p in carriers:
            continue
        carriers.add(p)
        if "as IncludeResolver>::resolve" in short(p):
            roots.add(p)
            continue
        cs = [c for c in rev.get(p, ()) if c in P.fns]
        if not cs:
            R.bad("net:" + short(p), "network API reachable outside a resolver implementation: " +
                  where(P.fns[p], P.fns[p].line))
        st += cs
    for p in sorted(roots):
        fn = P.fns[p]
        sp = NetSpec(carriers)
        Explorer(sp, P).run(fn, [("arg", i + 1, "a%d" % i) for i in range(fn.argc)], (0, frozenset()))
        R.check(bool(sp.ev) and all(x[1] for x in sp.ev), "net-arm:" + fn.short,
                "the network is used only for a Uri target in " + fn.short)
    attrs.setters(P, R, [ATTR], header=False)
    attrs.job_writes(P, R)
