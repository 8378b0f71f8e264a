"""Demand-driven gate analysis: every path to a sink passes a policy test.

Starting in the function that contains the sink with no assumptions, paths that
reach the sink without the gate fact become an obligation on every caller, and
so on upwards; an obligation that reaches a function nobody calls is open."""
from engine import Spec, Explorer
from mir import short


class GateSpec(Spec):
    def __init__(self, P, is_sink, gate_key, gated, helpers, sink_like=None):
        self.P, self.is_sink, self.gate_key, self.gated, self.helpers = P, is_sink, gate_key, gated, helpers
        self.events = []
        self.sink_like = sink_like or (lambda fn, t: True)

    def track(self, fr, e, kind):
        return self.gate_key(fr, e, kind)

    def descend(self, path):
        return path in self.helpers

    def interesting(self, fn, bi, b):
        t = b["t"]
        if t[0] != "call":
            return bool(fn.path in self.helpers and any(s[0][0] == 0 for s in b["s"]))
        if fn.path in self.helpers and t[3][0] == 0:
            return True
        f = t[1]
        if f[0] == "fn":
            if self.sink_like(fn, t):
                return True
            if any(self.descend(c) for c in self.P.callees(f)):
                return True
        return any(o[0] == "closure" and self.descend(o[1]) for o in t[2])

    def call(self, fr, bi, t, names, args, st):
        s = self.is_sink(fr, t, names, args)
        if s:
            if not self.gated(fr, t, names, args, dict(st[1])):
                self.events.append((fr.fn.path, bi, t[5], s, tuple(sorted(map(str, st[1])))))
        return None


def helper_set(P, direct, exclude, limit=60):
    """functions that (transitively) evaluate the policy predicate, kept small"""
    rev = P.rev()
    seen, st = set(exclude), list(exclude)
    while st:
        for c in rev.get(st.pop(), ()):
            if c not in seen:
                seen.add(c)
                st.append(c)
    exclude = seen
    out = set(d for d in direct)
    work = list(direct)
    while work:
        p = work.pop()
        for c in rev.get(p, ()):
            if c in out or c in exclude or c not in P.fns:
                continue
            fn = P.fns[c]
            rt = fn.ty(0)
            small = len(fn.blocks) <= limit
            if small and (rt == "bool" or rt.startswith(("core::option::Option", "core::result::Result", "std::")) or
                          fn.kind == "Closure"):
                out.add(c)
                work.append(c)
    return out - set(exclude)


def open_paths(P, sink_fns, mk_spec, report, relevant=None):
    """sink_fns: fn path -> predicate for sink calls. mk_spec(target_fn or None) builds a GateSpec.
    Yields violations: (chain of (fn, line), facts)."""
    rev = P.rev()
    bad = []
    explored = 0
    pending = [(p, None, ()) for p in sink_fns]
    done = set()
    while pending:
        p, sub, chain = pending.pop()
        root = chain[-1][0].path if chain else p
        if (p, sub, root) in done or any(b[-1][0].path == root for b in bad):
            continue
        done.add((p, sub, root))
        fn = P.fns[p]
        spec = mk_spec(sub)
        if sub is not None and relevant is not None and not relevant(fn):
            # nothing in this caller tests the policy: the obligation moves up unchanged
            callers = [c for c in rev.get(p, ()) if c in P.fns]
            ls = [x[3] for x in P.callgraph()[p] if x[0] == sub]
            ch = ((fn, min(ls) if ls else fn.line),) + chain
            if not callers or len(chain) > 5:
                bad.append(ch)
            else:
                pending.extend((c, p, ch) for c in callers)
            continue
        ex = Explorer(spec, P)
        args = [("arg", i + 1, fn.lname(i + 1) or "_%d" % (i + 1)) for i in range(fn.argc)]
        ex.run(fn, args, (0, frozenset()))
        explored += ex.n_states
        evs = [e for e in spec.events if e[0] == p]
        if not evs:
            report.ok("every path to %s in %s passes the gate" % (
                "the sink" if sub is None else short(sub), fn.short))
            continue
        line = min(e[2] for e in evs)
        ch = ((fn, line),) + chain
        callers = [c for c in rev.get(p, ()) if c in P.fns]
        if not callers or len(chain) > 5:
            bad.append(ch)
            continue
        for c in callers:
            pending.append((c, p, ch))
    report.count("path states explored", explored)
    return bad
