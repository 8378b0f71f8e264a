"""Parsing a construct leaves the parser's mode as it found it.

Forward dataflow over MIR of every parser function that can reach the parse context: for each
mode field the set of values it can hold, relative to its value on entry - unchanged, a constant,
or something else; locals that saved a mode value are followed, `mem::replace`/`take`/`swap` and
callees too (helpers by inferred summaries, functions that produce a node of the tree by the
contract that is being checked).  On every successful return of a function that produces a node
each mode must be what it was on entry."""
import re
from common import where
from mir import MissingAnchor, fmt, short, strip_generics
from rules import e02

CRATE = "asciidork_parser"
MODES = {"subs": "substitutions in force", "delimiter": "enclosing delimiter", "section_level": "section level",
         "custom_line_comment": "line comment marker", "can_nest_blocks": "whether blocks may nest",
         "bibliography_ctx": "bibliography context", "table_cell_ctx": "table cell context", "inline_ctx": "enclosing inline span",
         "in_markdown_blockquote": "inside a markdown quote", "list.parsing_continuations": "inside a list continuation",
         "list.stack": "stack of open lists"}


def E(m):
    """the value the mode had on entry"""
    return ("E", 0, m)


def is_ctx(ty):
    b = strip_generics(e02.strip_ty(ty)).split("::")[-1]
    return b in ("Parser", "ParseContext")


def root_of(e):
    while isinstance(e, tuple) and e[0] in ("field", "as", "idx"):
        e = e[1]
    return e


class Fun:
    def __init__(self, A, fn):
        self.A, self.fn, self.P = A, fn, A.P
        self.params = [i for i in range(1, fn.argc + 1) if is_ctx(fn.ty(i)) and fn.ty(i).startswith("&mut")]
        self.atoms = None

    def mine(self, e):
        r = root_of(e)
        if r[0] == "arg":
            return r[1] in self.params or self.fn.kind == "Closure" and r[1] == 1
        return r[0] == "var" and len(r) > 2 and r[2] in self.params

    def mode(self, e):
        """-> (field, exact) | ("*", True) for the whole context | None"""
        path = []
        x = e
        while isinstance(x, tuple) and x[0] in ("field", "as", "idx"):
            path.insert(0, str(x[2]) if x[0] == "field" else "?")
            x = x[1]
        if not self.mine(e):
            return None
        if "ctx" in path:
            path = path[path.index("ctx") + 1:]
            if not path:
                return ("*", True)
        else:
            r = root_of(e)
            l = r[1] if r[0] == "arg" else r[2]
            if not strip_generics(e02.strip_ty(self.fn.ty(l))).endswith("ParseContext"):
                return None
        for n in (1, 2):
            k = ".".join(path[:n])
            if k in self.A.modes:
                return (k, len(path) == n)
        if path == ["list"]:
            return ("list", True)
        return None

    def val(self, st, op, site):
        F, L = st
        if op[0] in ("p", "m"):
            k = key(op[1])
            if k in L:
                return L[k]
            if isinstance(k, int) and 1 <= k <= self.fn.argc or isinstance(k, tuple) and 1 <= k[0] <= self.fn.argc:
                if not self.mine(self.fn.sym_place(op[1])):
                    return frozenset([("P", k)])
            m = self.mode(self.fn.sym_place(op[1]))
            if m and m[1] and m[0] in F:
                return F[m[0]]
        e = self.fn.sym_op(op)
        if e[0] in ("k", "variant", "const"):
            return frozenset([("k", e)])
        return frozenset([("x", site)])

    def rv(self, st, rv, site):
        if rv[0] == "use":
            return self.val(st, rv[1], site)
        if rv[0] == "agg" and not rv[2]:
            return frozenset([("k", self.fn.sym_rv(rv))])
        if rv[0] == "cast":
            return self.val(st, rv[1], site)
        return frozenset([("x", site)])

    def write(self, F, m, v, site):
        f, exact = m
        for k in ([f] if f in F else [k for k in F if f == "*" or k.startswith(f + ".")]):
            F[k] = v if exact and k == f else frozenset([("x", site)])

    def run(self):
        fn, A = self.fn, self.A
        start = ({f: frozenset([E(f)]) for f in A.modes}, {})
        inn = {0: {("-", frozenset()): start}}
        work = [0]
        self.exits = []
        self.calls = {}
        while work:
            bi = work.pop(0)
            for tag, st in list(inn[bi].items()):
                for tgt, tag2, st2 in self.step(bi, tag, st):
                    if len(inn.get(tgt, ())) > 40 and tag2 not in inn[tgt]:
                        tag2 = (tag2[0], frozenset())
                    cur = inn.setdefault(tgt, {}).get(tag2)
                    new = join(cur, st2)
                    if cur is None or new != cur:
                        inn[tgt][tag2] = new
                        if tgt not in work:
                            work.append(tgt)
        # exits
        out = None
        for bi, b in enumerate(fn.blocks):
            if b["t"][0] == "return" and bi in inn:
                for tag, st in inn[bi].items():
                    tag, st = self.stmts(bi, tag[0], st)
                    if tag == "err":
                        continue
                    out = join(out, st)
        return out

    def facts(self):
        """tests that are made more than once on a value that does not change: paths are told apart by them"""
        if self.atoms is None:
            fn, seen = self.fn, {}
            self.atoms = {}
            if len(fn.blocks) <= 400:
                for bi, b in enumerate(fn.blocks):
                    a = self.atom(bi)
                    if a:
                        seen.setdefault(a[0], []).append(bi)
                for e, bs in seen.items():
                    if len(bs) > 1:
                        for bi in bs:
                            self.atoms[bi] = self.atom(bi)
        return self.atoms

    def atom(self, bi):
        t = self.fn.blocks[bi]["t"]
        if t[0] != "switch":
            return None
        e = self.fn.sym_op(t[1])
        if e[0] == "discr" and self.stable(e[1]):
            vs = self.P.variants(e[2]) if isinstance(e[2], str) else {}
            return (e[1], lambda v, vs=vs: vs.get(int(v)) if v is not None else None, sorted(vs.values()))
        if e[0] == "call" and e[3] == "PartialEq::eq" and len(e[2]) == 2 and e[2][1][0] == "variant" and self.stable(e[2][0]):
            return (e[2][0], ("eq", e[2][1][2]), None)
        return None

    def stable(self, e):
        r = root_of(e)
        if self.mine(e):
            return False
        if r[0] == "arg":
            return True
        if r[0] == "call":
            return True
        return False

    def split(self, bi, facts, succs):
        """successors that agree with the facts, with the facts they add"""
        a = self.facts().get(bi)
        t = self.fn.blocks[bi]["t"]
        if a is None:
            return [(s, facts) for s in succs]
        e, how, every = a
        d = dict(facts)
        cur = d.get(e)          # (True, {variants possible}) | (False, {variants excluded})
        out = []
        listed = []
        for v, s in list(t[2]) + [(None, t[3])]:
            if isinstance(how, tuple):
                truth = (int(v) != 0) if v is not None else not (t[2] and int(t[2][0][0]) != 0)
                new = (truth, frozenset([how[1]]))
            elif v is not None:
                n = how(v)
                listed.append(n)
                new = (True, frozenset([n]))
            else:
                new = (False, frozenset(listed))
            m = meet(cur, new)
            if m is None:
                continue
            out.append((s, frozenset(x for x in facts if x[0] != e) | {(e, m)}))
        return out

    def stmts(self, bi, tag, st):
        fn = self.fn
        F, L = dict(st[0]), dict(st[1])
        for si, (pl, rv, ln) in enumerate(fn.blocks[bi]["s"]):
            if rv[0] == "dead":
                L.pop(pl[0], None)
                continue
            site = (fn.path, ln)
            if pl == [0] or pl == (0,):
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("Result"):
                    tag = "err" if rv[1][2] == "Err" else "ok"
            m = self.mode(fn.sym_place(pl)) if len(pl) > 1 else None
            if m:
                self.write(F, m, self.rv((F, L), rv, site), site)
            elif len(pl) == 1:
                for k in [k for k in L if isinstance(k, tuple) and k[0] == pl[0]]:
                    del L[k]
                if rv[0] == "agg" and rv[2]:
                    nm = rv[1][3] if rv[1][0] == "adt" else [str(i) for i in range(len(rv[2]))]
                    for n, o in zip(nm, rv[2]):
                        if o[0] in ("p", "m"):
                            L[(pl[0], n)] = self.val((F, L), o, site)
                if rv[0] == "use" and rv[1][0] in ("p", "m"):
                    src = rv[1][1]
                    k = key(src)
                    if isinstance(k, int):
                        for (a, n) in [x for x in L if isinstance(x, tuple) and x[0] == k]:
                            L[(pl[0], n)] = L[(a, n)]
                    if k is not None and k in L:
                        L[pl[0]] = L[k]
                        continue
                    if isinstance(k, int) and 1 <= k <= fn.argc and k not in self.params:
                        L[pl[0]] = frozenset([("P", k)])
                        continue
                    mm = self.mode(fn.sym_place(src))
                    if mm and mm[1] and mm[0] in F and not fn.ty(pl[0]).startswith("&"):
                        L[pl[0]] = F[mm[0]]
                        continue
                if rv[0] == "ref" and len(rv[1]) == 1 and rv[1][0] in L:
                    L[pl[0]] = L[rv[1][0]]      # a view of a saved value
                    continue
                L.pop(pl[0], None)
        return tag, (F, L)

    def step(self, bi, tag, st):
        out = self.block(bi, tag[0], st)
        if self.fn.blocks[bi]["t"][0] != "switch":
            return [(t, (g, tag[1]), s) for t, g, s in out]
        if not out:
            return []
        g, s = out[0][1], out[0][2]
        return [(t, (g, f), s) for t, f in self.split(bi, tag[1], [o[0] for o in out])]

    def block(self, bi, tag, st):
        fn, A = self.fn, self.A
        tag, (F, L) = self.stmts(bi, tag, st)
        t = fn.blocks[bi]["t"]
        k = t[0]
        if k == "return":
            return []
        if k != "call":
            return [(s, tag, (F, L)) for s in fn.succs(bi)]
        f, ops, dest = t[1], t[2], t[3]
        site = (fn.path, t[5])
        names = short(f[2] or f[1]) if f[0] == "fn" else ""
        last = names.split("::")[-1]
        args = [fn.sym_op(a) for a in ops]
        ms = [self.mode(a) if a[0] == "field" else None for a in args]
        old = dict(F)
        ret, rets = None, {}
        cs = self.P.callees(f) if f[0] == "fn" else []
        saved = [L.get(a[1][0]) if a[0] in ("p", "m") and len(a[1]) == 1 else None for a in ops]
        mut = [self.optype(a).startswith("&mut") for a in ops]
        tn = short(f[1]) if f[0] == "fn" else ""
        if saved and saved[0] is not None and last in ("clone", "to_owned", "cloned", "copied"):
            ret = saved[0]
        elif ms and ms[0] and ms[0][0] in F and not (cs and any(c in A.funs for c in cs)):
            m, full = ms[0]
            if tn in ("mem::replace", "replace", "Option::replace") and full:
                ret = F[m]
                F[m] = self.val((old, L), ops[1], site)
            elif tn in ("mem::take", "take") and full:
                ret = F[m]
                F[m] = frozenset([("k", "default")])
            elif tn == "Option::take" and full:
                ret = F[m]
                F[m] = frozenset([("k", ("variant", "Option", "None"))])
            elif tn in ("mem::swap", "swap") and full and len(args) == 2 and args[1][0] == "var":
                l = args[1][2]
                v = L.get(l, frozenset([("x", site)]))
                L[l] = F[m]
                F[m] = v
            elif last in ("clone", "to_owned", "cloned", "copied") and full:
                ret = F[m]
            elif m == "list.stack" and last in ("push", "pop") and mut[0]:
                d = 1 if last == "push" else -1
                F[m] = frozenset(("E", x[1] + d, x[2]) if x[0] == "E" and abs(x[1] + d) < 5 else ("x", site) for x in F[m])
            elif mut[0] and last not in ("deref_mut", "deref", "as_mut", "iter", "last", "borrow", "index", "as_ref", "as_slice",
                                           "reserve", "shrink_to", "shrink_to_fit", "len", "is_empty", "first", "get"):
                F[m] = frozenset([("x", site)])
        for i, m in enumerate(ms):
            if i and m and mut[i] and m[0] in F and tn not in ("mem::swap", "swap"):
                F[m[0]] = frozenset([("x", site)])
        if tn in ("mem::swap", "swap") and len(ms) == 2 and ms[1] and ms[1][0] in F and args[0][0] == "var":
            l = args[0][2]
            v = L.get(l, frozenset([("x", site)]))
            L[l] = F[ms[1][0]]
            F[ms[1][0]] = v
        if tn in ("mem::swap", "swap") and len(ms) == 2 and ms[0] and ms[1] and ms[0][0] in F and ms[1][0] in F:
            F[ms[0][0]], F[ms[1][0]] = old[ms[1][0]], old[ms[0][0]]
        # a callee that gets our context
        passed = [i for i, a in enumerate(args) if mut[i] and self.mine(a) and (is_ctx(self.optype(ops[i])) or (ms[i] and ms[i][0] in ("*", "list")))]
        if passed and cs:
            res = [A.summary(c) for c in cs if c in A.funs]
            self.calls.setdefault(bi, (t[5], cs, {}))
            for m in F:
                self.calls[bi][2][m] = self.calls[bi][2].get(m, frozenset()) | F[m]
            if res:
                if any(r is None for r in res) and not any(r is not None for r in res):
                    return []        # not known to return yet
                F0 = dict(F)
                sub = lambda k: self.arg(k, ops, (old, L), site)
                F = {m: frozenset().union(*[apply(F0, r[0][m], sub) for r in res if r is not None]) for m in F0}
                rr = [r[1] for r in res if r is not None]
                rets = {k: frozenset().union(*[apply(F0, x[k], sub) for x in rr]) for k in rr[0] if all(k in x for x in rr)}
        if len(dest) == 1:
            for k in [k for k in L if k == dest[0] or isinstance(k, tuple) and k[0] == dest[0]]:
                del L[k]
            if ret is not None:
                L[dest[0]] = ret
            for k, v in rets.items():
                L[dest[0] if k == 0 else (dest[0], k[1])] = v
            if dest[0] == 0:
                tag = "err" if last == "from_residual" else "ok"
        else:
            m = self.mode(fn.sym_place(dest))
            if m:
                self.write(F, m, ret if ret is not None else frozenset([("x", site)]), site)
        return [(s, tag, (F, L)) for s in fn.succs(bi)]

    def arg(self, k, ops, st, site):
        """what the caller passes for a parameter (or a field of one) of a helper"""
        i, n = (k, None) if isinstance(k, int) else k
        if i - 1 >= len(ops):
            return frozenset([("x", site)])
        o = ops[i - 1]
        if n is None:
            return self.val(st, o, site)
        if o[0] in ("p", "m") and len(o[1]) == 1:
            return st[1].get((o[1][0], n), frozenset([("x", site)]))
        return frozenset([("x", site)])

    def optype(self, o):
        if o[0] in ("p", "m") and len(o[1]) == 1:
            return self.fn.ty(o[1][0])
        return ""


def meet(a, b):
    if a is None:
        return b
    if a[0] and b[0]:
        m = a[1] & b[1]
        return (True, m) if m else None
    if a[0] != b[0]:
        m = (a[1] - b[1]) if a[0] else (b[1] - a[1])
        return (True, m) if m else None
    return (False, a[1] | b[1])


def key(pl):
    """a local, or a field of one"""
    pl = [p for p in pl if p != "*"]
    if len(pl) == 1:
        return pl[0]
    if len(pl) == 2 and pl[1][0] == "f":
        return (pl[0], pl[1][1])
    return None


def apply(F0, out, sub):
    r = set()
    for o in out:
        if o[0] == "P":
            r |= sub(o[1])
        elif o[0] == "E":
            for c in F0[o[2]]:
                r.add(("E", c[1] + o[1], c[2]) if c[0] == "E" and abs(c[1] + o[1]) < 5 else c)
        else:
            r.add(o)
    return frozenset(r)


def join(a, b):
    if a is None:
        return b
    F = {k: a[0][k] | b[0][k] for k in a[0]}
    L = {k: a[1][k] | b[1][k] for k in a[1] if k in b[1]}
    return (F, L)


class Analysis:
    def __init__(self, P):
        self.P = P
        T = e02.Types(P)
        self.T = T
        ctx = [d for a, d in P.adts.items() if a.startswith(CRATE) and a.split("::")[-1] == "ParseContext"]
        if not ctx:
            raise MissingAnchor("ParseContext")
        fields = {f[0] for f in ctx[0]["variants"][0][2]}
        self.modes = [m for m in MODES if m.split(".")[0] in fields]
        self.funs = {}
        for fn in P.fns.values():
            if fn.crate == CRATE and not fn.promoted and not re.search(r"::tests?(::|$)|::test_", fn.path):
                F = Fun(self, fn)
                if F.params or fn.kind == "Closure":
                    self.funs[fn.path] = F
        self.sum = {}
        self.demoted = frozenset()
        self.defaults = self.constructor()

    def constructor(self):
        D = {}
        for fn in self.P.fns.values():
            if fn.crate != CRATE or fn.promoted:
                continue
            for b in fn.blocks:
                for pl, rv, ln in b["s"]:
                    if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("::ParseContext"):
                        for n, o in zip(rv[1][3], rv[2]):
                            D.setdefault(n, set()).add(fn.sym_op(o))
        return {n: next(iter(v)) for n, v in D.items() if len(v) == 1}

    def construct(self, fn):
        ty = fn.ty(0)
        if fn.path in self.demoted or fn.kind == "Closure" or re.search(r"\bInlineNode<|Peeked|\bAccum\b", ty):
            return False
        names = set(re.findall(r"asciidork_ast::[\w:]+", ty))
        return any(n in self.T.cont for n in names)

    def summary(self, path):
        F = self.funs[path]
        if self.construct(F.fn):
            return ({m: frozenset([E(m)]) for m in self.modes}, {})
        return self.sum.get(path)

    def solve(self):
        changed = True
        n = 0
        while changed:
            changed = False
            n += 1
            for p, F in self.funs.items():
                if self.construct(F.fn):
                    continue
                out = F.run()
                if out is None:
                    continue
                r = {k: v for k, v in out[1].items() if k == 0 or isinstance(k, tuple) and k[0] == 0}
                new = (out[0], r)
                if new != self.sum.get(p):
                    self.sum[p] = new
                    changed = True
        return n


def judge(P, demoted):
    """-> (analysis, functions producing a node, held, {key: violation}, assumptions)"""
    A = Analysis(P)
    if len(A.modes) < 6:
        raise MissingAnchor("the mode fields of ParseContext")
    A.demoted = demoted
    A.solve()
    cons = [p for p, F in A.funs.items() if A.construct(F.fn)]
    leaks, held, bads, assume = [], [], {}, []
    for p in sorted(cons):
        F = A.funs[p]
        out = F.run()
        if out is None:
            assume.append("%s has no successful return" % F.fn.short)
            continue
        for m in A.modes:
            bad = [v for v in out[0][m] if v != E(m)]
            if bad:
                leaks.append((F, m, bad))
            else:
                held.append("%s leaves %s as it was" % (F.fn.short, m))
    # a constant written back is the entry value where the mode is known to be the default
    for F in A.funs.values():
        if not hasattr(F, "calls"):
            F.run()
    for F, m, bad in leaks:
        d = A.defaults.get(m)
        fn = F.fn
        if d is not None and all(v == ("k", d) for v in bad):
            bad_call = nested(A, m, d, fn.path)
            if bad_call is None:
                held.append("%s writes back the default of %s and is only entered with it" % (fn.short, m))
                continue
            bads[(fn.path, m)] = ("%s:%s" % (fn.short, m), "%s: %s resets the %s (`%s`) to its default instead of what it was: it can be entered with another value through %s"
                                  % (where(fn, fn.line), fn.short, MODES[m], m, bad_call))
            continue
        v = bad[0]
        at = "" if v[0] != "x" else " (last written at line %s of %s)" % (v[1][1], short(v[1][0]))
        bads[(fn.path, m)] = ("%s:%s" % (fn.short, m), "%s: %s can return with the %s (`%s`) changed%s: %s" % (
            where(fn, fn.line), fn.short, MODES[m], m, at, ", ".join(desc(v) for v in bad)))
    return A, cons, held, bads, assume


def steps(P, A, bads):
    """functions reached from a single place, once: a step of their caller rather than a construct of their own"""
    out = []
    for p in sorted({k[0] for k in bads}):
        sites = []
        for q in P.rev().get(p, ()):
            fn = P.fns[q]
            for bi, b in enumerate(fn.blocks):
                t = b["t"]
                if t[0] == "call" and t[1][0] == "fn" and p in P.callees(t[1]):
                    sites.append((fn, bi))
        if len(sites) == 1 and sites[0][0].path in A.funs and sites[0][0].path != p and not cyclic(*sites[0]):
            out.append(p)
    return out


def cyclic(fn, bi):
    seen, todo = set(), list(fn.succs(bi))
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo += fn.succs(b)
    return bi in seen


def run(P, R, tier):
    demoted = frozenset()
    A, cons, held, bads, assume = judge(P, demoted)
    # a step split off one construct may leave a mode to its only caller, if that caller puts it back
    for p in steps(P, A, bads):
        r = judge(P, demoted | {p})
        if set(r[3]) < set(bads):
            demoted |= {p}
            A, cons, held, bads, assume = r
            assume.append("%s is judged as a step of its only caller" % short(p))
    for t in held:
        R.ok(t)
    for t in assume:
        R.assumption(t)
    for k, t in bads.values():
        R.bad(k, t)
    R.count("functions that produce a node", len(cons))
    R.count("helper functions summarised", len(A.funs) - len(cons))
    R.count("modes followed", len(A.modes))
    R.floor("functions that produce a node", 10)
    R.rule("on every successful return of a function producing a node, each parser mode has its entry value")
    R.assumption("errors abort the parse (P03), so modes need not be restored on error returns")


def nested(A, m, d, target):
    """a call made while the mode is not its default that can lead back to target"""
    for F in A.funs.values():
        for bi, (ln, cs, st) in F.calls.items():
            vals = st.get(m, frozenset())
            if any(v != E(m) and v != ("k", d) for v in vals):
                for c in cs:
                    if target in A.P.reach([c]):
                        return "%s at line %d" % (F.fn.short, ln)
    return None


def desc(v):
    if v[0] == "E":
        return "%+d entries" % v[1] if v[1] else "it is what `%s` was" % v[2]
    if v[0] == "k":
        return "it is %s" % (fmt(v[1]) if isinstance(v[1], tuple) else v[1])
    return "it is another value"
