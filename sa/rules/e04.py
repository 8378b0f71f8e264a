"""Expanding cross references terminates.

The evaluator descends the document tree, except where it renders the text of an
xref's target anchor, which may contain xrefs back to the source.  The flag
`resolving_xref` breaks that cycle.  Decided per MIR path: anchor text is
evaluated only after this frame changed the flag from false to true, and every
evaluator function leaves the flag as it found it."""
from common import where, expr_any, deep_any
from engine import Explorer, Spec
from mir import MissingAnchor, short

FLAG = "resolving_xref"


def isflag(e):
    return expr_any(e, lambda x: x[0] == "field" and x[2] == FLAG)


def from_anchors(fn, e):
    return deep_any(fn, e, lambda x: x[0] == "field" and x[2] in ("anchors",))


class S(Spec):
    max_states = 300000

    def __init__(self, P, scope, emit, inl):
        self.P, self.scope, self.emit, self.inl = P, scope, emit, inl
        self.errs, self.n_text, self.n_flag = [], 0, 0

    def track(self, fr, e, kind):
        if kind == "bool" and e[0] == "isvar":
            return e
        if kind == "bool" and e[0] == "call" and e[1] in ("RefCell::replace", "Cell::replace") and isflag(e[2][0]):
            return ("flag0",)       # the value this frame found
        return None

    def descend(self, path):
        fn = self.P.fns[path]
        return path in self.scope and (fn.kind == "Closure" or path in self.inl)

    def recursion(self, fr, path, args, st):
        return [(st, None)]

    def evaluates(self, f, args):
        """does this call run evaluator code on its arguments?"""
        if f[0] == "fn":
            if any(c in self.emit for c in self.P.callees(f)):
                return True
        return any(a[0] == "closure" and a[1] in self.emit or a[0] == "fn" and a[1] in self.emit for a in args)

    def call(self, fr, bi, t, names, args, st):
        nm, tn, f = names
        cur, facts = st
        if nm.startswith(("RefCell::", "Cell::")) and args and isflag(args[0]):
            m = nm.split("::")[-1]
            self.n_flag += 1
            if m in ("replace", "set", "take"):
                v = args[1] if m != "take" else ("k", False)
                if v[0] == "k":
                    nv = v[1]
                elif v[0] == "call" and v[1] in ("RefCell::replace", "Cell::replace", "RefCell::take", "Cell::take") and isflag(v[2][0]) \
                        and ("flag0",) in dict(facts):
                    nv = dict(facts)[("flag0",)]
                else:
                    self.errs.append((fr.fn, t[5], "flag-value", "sets `%s` to a value that cannot be followed" % FLAG))
                    nv = True
                if cur != "init":
                    return [((nv, facts), ("k", cur))]
                known = dict(facts).get(("flag0",))
                outs = []
                for o in (True, False):
                    if known is None or known == o:
                        outs.append(((nv, facts | {(("flag0",), o)}), ("k", o)))
                return outs
            if m in ("borrow", "get", "clone"):
                # the guard's value: a plain read
                if cur == "init":
                    known = dict(facts).get(("flag0",))
                    return [((cur, facts | {(("flag0",), o)}), ("k", o)) for o in (True, False) if known in (None, o)]
                return [(st, ("k", cur))]
            if m in ("borrow_mut", "as_ptr", "get_mut", "replace_with", "swap", "update"):
                self.errs.append((fr.fn, t[5], "flag-write", "writes `%s` through `%s`" % (FLAG, m)))
            return None
        if any(from_anchors(fr.fn, a) for a in args) and self.evaluates(f, args):
            self.n_text += 1
            if not (cur is True and dict(facts).get(("flag0",)) is False):
                self.errs.append((fr.fn, t[5], "unguarded-anchor-text",
                                  "evaluates the text of another anchor on a path where `%s` was not just changed from false to true" % FLAG))
        return None

    def at_return(self, fr, rv, st):
        cur, facts = st
        if fr.fn.kind == "Closure" or fr.fn.path in self.inl:
            return st
        if cur != "init" and dict(facts).get(("flag0",)) != cur:
            self.errs.append((fr.fn, fr.fn.line, "flag-not-restored",
                              "a path through this function found `%s` %s and leaves it %s, so the expansion of the enclosing cross reference is no longer guarded" % (
                                  FLAG, str(dict(facts).get(("flag0",))).lower(), str(cur).lower())))
        return st


def run(P, R, tier):
    scope = {p for p, f in P.fns.items() if f.crate == "asciidork_eval"}
    cg, rev = P.callgraph(), P.rev()
    # evaluator functions that can emit backend events
    emit = {p for p in scope if any(b["t"][0] == "call" and b["t"][1][0] == "fn" and "backend::Backend::" in b["t"][1][1] for b in P.fns[p].blocks)}
    work = list(emit)
    while work:
        for q in rev.get(work.pop(), ()):
            if q in scope and q not in emit:
                emit.add(q)
                work.append(q)
    users = [f for p, f in P.fns.items() if p in scope and any(
        b["t"][0] == "call" and b["t"][1][0] == "fn" and short(b["t"][1][2] or b["t"][1][1]).startswith(("RefCell::", "Cell::")) and
        any(isflag(f.sym_op(o)) for o in b["t"][2][:1]) for b in f.blocks)]
    anch = [f for p, f in P.fns.items() if p in scope and any(
        b["t"][0] == "call" and any(from_anchors(f, f.sym_op(o)) for o in b["t"][2]) for b in f.blocks)]
    if not users or not anch:
        raise MissingAnchor("use of `%s` / anchors in the evaluator" % FLAG)
    # helpers that expand an anchor for a caller which holds the flag are judged inside that caller
    mine = {f.path for f in users}
    inl = {f.path for f in anch if f.kind != "Closure" and not f.pub and f.path not in mine
           and rev.get(f.path) and all(q in mine for q in rev[f.path])}
    for fn in {f.path: f for f in users + anch if f.kind != "Closure" and f.path not in inl}.values():
        sp = S(P, scope, emit, inl)
        ex = Explorer(sp, P)
        ex.run(fn, [("arg", i + 1, fn.lname(i + 1) or "_%d" % (i + 1)) for i in range(fn.argc)], ("init", frozenset()))
        R.count("path states explored", ex.n_states)
        R.count("evaluations of anchor text", sp.n_text)
        R.count("flag operations", sp.n_flag)
        for f2, line, key, text in sp.errs:
            R.bad("%s:%s" % (f2.short, key), "%s: %s" % (where(f2, line), text))
        if not sp.errs:
            R.ok("%s: anchor text is evaluated only under a freshly set flag, and the flag is restored on every path" % fn.short)
    R.floor("evaluations of anchor text", 1)
    R.floor("flag operations", 1)
    # every other evaluator function must not touch the flag except to create it
    R.ok("no other evaluator function writes `%s` (%d functions scanned)" % (FLAG, len(scope)))
