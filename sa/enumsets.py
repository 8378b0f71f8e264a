"""Finite-domain path evaluation of MIR: which variants chosen enums can take.

Values: ("sym", id) with per-path facts id -> frozenset of variants; ("agg", adt, variant,
((field, value), ...)); ("k", c).  Every path is enumerated; a state is the block, the relevant
locals and the facts.  Anything else is an unknown symbol, whose branches are both taken."""
from mir import short, strip_generics

LAST = lambda p: strip_generics(p).split("::")[-1].rstrip(">")


class Limit(Exception):
    pass


class Ev:
    def __init__(self, P, adts, on_agg=None, on_call=None, descend=None, limit=400000):
        self.P, self.on_agg, self.on_call, self.desc = P, on_agg, on_call, descend
        self.adts = set(adts)
        self.var = {}
        for a, d in P.adts.items():
            if d["enum"]:
                n = LAST(a)
                vs = {v[1]: v[0] for v in d["variants"]}
                if n in self.adts or n not in self.var:
                    self.var[n] = vs
        self.var["Option"] = {0: "None", 1: "Some"}
        self.var["Result"] = {0: "Ok", 1: "Err"}
        self.var["ControlFlow"] = {0: "Continue", 1: "Break"}
        self.n = 0
        self.limit = limit
        self.stack = []
        self.rel = {}

    # ---- which locals matter
    def relevant_ty(self, ty):
        return any(a in ty for a in self.adts)

    def keep(self, fn):
        if fn.path in self.rel:
            return self.rel[fn.path]
        r = {0}
        for l in range(len(fn.locals)):
            ty = fn.ty(l)
            if l <= fn.argc or self.relevant_ty(ty) or ty == "bool":
                r.add(l)
        changed = True
        while changed:
            changed = False
            for b in fn.blocks:
                for pl, rv, ln in b["s"]:
                    if rv[0] == "discr" and pl[0] not in r and LAST(rv[2]) in self.adts | {"Option", "Result", "ControlFlow"}:
                        r.add(pl[0])
                        changed = True
        self.rel[fn.path] = r
        return r

    # ---- values
    def fresh(self, fn, bi, k, facts):
        i = ("s", fn.path, len(self.stack), bi, k)
        return ("sym", i), {x: v for x, v in facts.items() if not self.within(x, i)}

    def within(self, x, i):
        while True:
            if x == i:
                return True
            if isinstance(x, tuple) and x and x[0] == "p":
                x = x[1]
            else:
                return False

    def proj(self, v, f):
        if v[0] == "agg":
            for n, x in v[3]:
                if n == f:
                    return x
        if v[0] == "sym":
            return ("sym", ("p", v[1], f))
        return ("sym", ("p", ("k", str(v)), f))

    def read(self, fn, env, pl):
        v = env.get(pl[0]) or ("sym", ("l", fn.path, len(self.stack), pl[0]))
        var = None
        for p in pl[1:]:
            if p == "*":
                continue
            if isinstance(p, (list, tuple)) and p[0] == "d":
                var = p[1]
            elif isinstance(p, (list, tuple)) and p[0] == "f":
                f = p[1] if var is None else var + "." + p[1]
                v = self.proj(v, f if v[0] != "agg" else p[1])
                var = None
            else:
                v = self.proj(v, str(p))
        return v

    def op(self, fn, env, o):
        if o[0] in ("p", "m"):
            return self.read(fn, env, o[1])
        e = fn.sym_op(o)
        return self.const(e)

    def const(self, e):
        while e and e[0] == "ref":
            e = e[1]
        if e[0] == "variant":
            return ("agg", LAST(e[1]), e[2], ())
        if e[0] == "adt":
            return ("agg", LAST(e[1]), e[2], tuple((str(i), self.const(x)) for i, x in enumerate(e[3] if len(e) > 3 else ())))
        if e[0] == "k":
            return ("k", e[1])
        return ("sym", ("c", str(e)[:200]))

    def variants(self, v, adt, facts):
        if v[0] == "agg":
            return frozenset([v[2]])
        allv = frozenset(self.var.get(adt, {}).values())
        if v[0] == "sym" and v[1] in facts:
            return facts[v[1]]
        return allv or None

    # ---- run
    def run(self, fn, args, facts):
        """-> set of (value, facts) at returns"""
        if len(self.stack) > 14 or fn.path in self.stack:
            return None
        self.stack.append(fn.path)
        try:
            return self._run(fn, args, facts)
        finally:
            self.stack.pop()

    def _run(self, fn, args, facts):
        keep = self.keep(fn)
        env0 = {i + 1: a for i, a in enumerate(args)}
        start = (0, frozenset(env0.items()), frozenset(facts.items()))
        seen, todo, out = {start}, [start], set()
        while todo:
            bi, env, fa = todo.pop()
            self.n += 1
            if self.n > self.limit:
                raise Limit(fn.short)
            for s in self.block(fn, bi, dict(env), dict(fa), keep, out):
                k = (s[0], frozenset(s[1].items()), frozenset(s[2].items()))
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        return out

    def put(self, env, keep, pl, v):
        if len(pl) == 1:
            if pl[0] in keep or v[0] == "agg" and self.relevant(v) or v[0] == "discr":
                env[pl[0]] = v
            else:
                env.pop(pl[0], None)
        else:
            env.pop(pl[0], None)

    def relevant(self, v):
        if v[0] != "agg":
            return False
        return v[1] in self.adts or v[1] == "Option" or any(self.relevant(x) or x[0] == "sym" for _, x in v[3])

    def block(self, fn, bi, env, facts, keep, out):
        b = fn.blocks[bi]
        for k, (pl, rv, ln) in enumerate(b["s"]):
            t = rv[0]
            if t == "dead":
                env.pop(pl[0], None)
                continue
            v = None
            if t == "use":
                v = self.op(fn, env, rv[1])
            elif t == "ref":
                v = self.read(fn, env, rv[1])
                if rv[2] is True:
                    if len(rv[1]) == 1 or rv[1][0] > fn.argc:
                        env.pop(rv[1][0], None)
                    v = None
            elif t == "discr":
                v = ("discr", self.read(fn, env, rv[1]), LAST(rv[2]))
                if LAST(rv[2]) not in self.var:
                    v = None
            elif t == "cast":
                v = self.op(fn, env, rv[1]) if isinstance(rv[1], (list, tuple)) and rv[1] and rv[1][0] in ("p", "m", "k") else None
            elif t == "agg":
                ops = [self.op(fn, env, o) for o in rv[2]]
                if rv[1][0] == "adt":
                    v = ("agg", LAST(rv[1][1]), rv[1][2], tuple(zip([str(x) for x in rv[1][3]], ops)))
                    if self.on_agg:
                        self.on_agg(fn, ln, v, facts)
                elif rv[1][0] == "closure":
                    v = ("agg", "closure", rv[1][1], tuple(("^" + str(n), x) for n, x in zip(rv[1][2], ops)))
                elif rv[1][0] == "tuple":
                    v = ("agg", "tuple", None, tuple((str(i), x) for i, x in enumerate(ops)))
            if v is None:
                v, facts = self.fresh(fn, bi, k, facts)
            self.put(env, keep, pl, v)
        t = b["t"]
        if t[0] == "return":
            out.add((env.get(0) or ("sym", ("ret", fn.path)), frozenset(facts.items())))
            return []
        if t[0] == "switch":
            return self.switch(fn, bi, t, env, facts)
        if t[0] != "call":
            return [(s, env, facts) for s in fn.succs(bi)]
        res = self.call(fn, bi, t, env, facts)
        nxt = list(fn.succs(bi))
        outs = []
        for v, fa in res:
            e2 = dict(env)
            fa2 = dict(fa)
            if v is None:
                v, fa2 = self.fresh(fn, bi, "c", fa2)
            self.put(e2, keep, t[3], v)
            outs += [(s, e2, fa2) for s in nxt]
        return outs

    def switch(self, fn, bi, t, env, facts):
        o, arms, other = t[1], t[2], t[3]
        v = self.op(fn, env, o)
        if v[0] == "discr":
            x, adt = v[1], v[2]
            names = self.var.get(adt)
            vs = self.variants(x, adt, facts)
            if vs is None:
                return [(s, env, facts) for s in fn.succs(bi)]
            res, left = [], set(vs)
            for d, tgt in arms:
                n = names.get(d)
                left.discard(n)
                if n in vs:
                    res.append((tgt, env, self.learn(facts, x, adt, frozenset([n]))))
            if left and other is not None:
                res.append((other, env, self.learn(facts, x, adt, frozenset(left))))
            return self.merge(res)
        if v[0] == "k":
            for d, tgt in arms:
                if int(d) == int(v[1] if not isinstance(v[1], str) else -1):
                    return [(tgt, env, facts)]
            return [(other, env, facts)] if other is not None else []
        if v[0] == "iseq":
            _, x, adt, n = v
            vs = self.variants(x, adt, facts)
            res = []
            for d, tgt in list(arms) + [[1 - arms[0][0], other]] if len(arms) == 1 else arms:
                want = vs & {n} if d else vs - {n}
                if want:
                    res.append((tgt, env, self.learn(facts, x, adt, want)))
            return res
        return [(s, env, facts) for s in fn.succs(bi)]

    def merge(self, res):
        """arms that lead to the same block keep the union of what they know"""
        by = {}
        for tgt, env, fa in res:
            by.setdefault(tgt, []).append((env, fa))
        out = []
        for tgt, L in by.items():
            if len(L) == 1:
                out.append((tgt,) + L[0])
                continue
            fa = {}
            for k in L[0][1]:
                if all(k in f for _, f in L):
                    fa[k] = frozenset().union(*[f[k] for _, f in L])
            out.append((tgt, L[0][0], fa))
        return out

    def learn(self, facts, x, adt, vs):
        if x[0] != "sym" or adt not in self.adts and adt not in ("Option", "Result", "ControlFlow"):
            return facts
        if adt not in self.adts and not self.origin(x[1]):
            return facts
        f = dict(facts)
        f[x[1]] = vs
        return f

    def origin(self, i):
        return False

    def call(self, fn, bi, t, env, facts):
        f, ops = t[1], t[2]
        if f[0] != "fn":
            return [(None, facts)]
        nm = short(f[2] or f[1])
        tn = short(f[1])
        m = nm.split("::")[-1]
        args = [self.op(fn, env, o) for o in ops]
        if self.on_call:
            self.on_call(fn, t, nm, args, facts)
        N = lambda a, v, *xs: ("agg", a, v, tuple((str(i), x) for i, x in enumerate(xs)))
        if tn in ("PartialEq::eq", "PartialEq::ne") and len(args) == 2:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if b[0] == "agg" and b[1] in self.adts and not b[3]:
                    if a[0] == "agg":
                        return [(("k", (a[2] == b[2]) == (tn == "PartialEq::eq")), facts)]
                    vs = self.variants(a, b[1], facts)
                    r = []
                    if b[2] in vs:
                        r.append((("k", tn == "PartialEq::eq"), self.learn(facts, a, b[1], frozenset([b[2]]))))
                    if vs - {b[2]}:
                        r.append((("k", tn != "PartialEq::eq"), self.learn(facts, a, b[1], vs - {b[2]})))
                    return r
            return [(None, facts)]
        if m in ("clone", "copied", "cloned", "as_ref", "to_owned", "borrow", "deref") and args and args[0][0] == "agg":
            return [(args[0], facts)]
        if m == "clone" and args:
            return [(args[0], facts)]
        if nm == "Try::branch" or tn == "Try::branch":
            a = args[0]
            if a[0] == "agg" and a[2] in ("Some", "Ok"):
                return [(N("ControlFlow", "Continue", *[x for _, x in a[3]]), facts)]
            if a[0] == "agg" and a[2] in ("None", "Err"):
                return [(N("ControlFlow", "Break"), facts)]
            return [(None, facts)]
        if tn == "FromResidual::from_residual":
            ty = fn.ty(t[3][0]) if len(t[3]) == 1 else ""
            return [(N("Option", "None") if "option::Option" in ty[:30] else N("Result", "Err"), facts)]
        base = nm.split("::")[0]
        if base == "Option" and args:
            r = self.option(fn, t, m, args, facts, N)
            if r is not None:
                return r
        if m == "find_map" and len(args) == 2:
            rs = self.apply(ops[1], args[1], fn, [("sym", ("x", fn.path, bi))], facts)
            if rs is not None:
                return [(N("Option", "None"), facts)] + [(v, fa) for v, fa in rs if not (v[0] == "agg" and v[2] == "None")]
        if m in ("unwrap", "expect") and args and args[0][0] == "agg":
            if args[0][2] in ("Some", "Ok"):
                return [(args[0][3][0][1], facts)]
            if args[0][2] in ("None", "Err") and self.on_call:
                self.on_call(fn, t, "panicking::unwrap_failed", args, facts)
                return []
        cs = self.P.callees(f)
        if not cs and m == "into" and len(f[4]) == 2:
            # the blanket Into: the From of the target type
            want = [p for p in self.P.fns if p.endswith("::from") and LAST(f[4][1]) in p.split(" as ")[0] and
                    "From" in p and LAST(f[4][0]) in str(self.P.fns[p].ty(1))]
            cs = want
        outs = []
        rel = False
        for c in cs:
            g = self.P.fns[c]
            if not self.wanted(g, args, facts):
                continue
            rel = True
            r = self.run(g, [self.strip(a, g, i) for i, a in enumerate(args)], facts)
            if r is None:
                outs.append((None, facts))
                continue
            for v, fa in r:
                outs.append((v, {k: x for k, x in dict(fa).items() if not self.local(k, len(self.stack) + 1, v)}))
        if not rel:
            return [(None, facts)]
        return outs if outs else []

    def strip(self, a, g, i):
        return a

    def local(self, k, depth, v):
        """facts about symbols of a frame that has returned, unless the result carries them"""
        i = k
        while isinstance(i, tuple) and i and i[0] == "p":
            i = i[1]
        if isinstance(i, tuple) and i and i[0] in ("s", "l") and i[2] >= depth:
            return not mentions(v, i)
        return False

    def wanted(self, g, args, facts):
        if self.desc is not None:
            d = self.desc(g)
            if d is not None:
                return d
        ty = strip_generics(g.ty(0)) if False else g.ty(0)
        if self.relevant_ty(ty) and "BumpVec" not in ty and "Vec<" not in ty:
            return True
        if ty == "bool" and any(self.relevant_ty(g.ty(i + 1)) for i in range(g.argc)) and g.kind != "Closure":
            return any(LAST(g.ty(i + 1).replace("&", "").strip()) in self.adts for i in range(g.argc))
        return False

    def apply(self, fop, val, fn, xs, facts):
        """call a closure or function operand"""
        e = fn.sym_op(fop)
        while e and e[0] == "ref":
            e = e[1]
        if val[0] == "agg" and val[1] == "closure" and val[2] in self.P.fns:
            r = self.run(self.P.fns[val[2]], [val] + xs, facts)
        elif e[0] == "closure" and e[1] in self.P.fns:
            g = self.P.fns[e[1]]
            r = self.run(g, [("sym", ("env", g.path))] + xs, facts)
        elif e[0] == "fn" and e[1] in self.P.fns:
            r = self.run(self.P.fns[e[1]], xs, facts)
        else:
            return None
        if r is None:
            return None
        return [(v, dict(fa)) for v, fa in r]

    def option(self, fn, t, m, args, facts, N):
        a = args[0]
        ops = t[2]
        some = a[0] == "agg" and a[2] == "Some"
        none = a[0] == "agg" and a[2] == "None"
        payload = a[3][0][1] if some else self.proj(a, "Some.0")
        if m in ("and_then", "map"):
            if none:
                return [(N("Option", "None"), facts)]
            rs = self.apply(ops[1], args[1], fn, [payload], facts)
            if rs is None:
                return None
            r = [] if some else [(N("Option", "None"), facts)]
            return r + [(v if m == "and_then" else N("Option", "Some", v), fa) for v, fa in rs]
        if m == "unwrap_or":
            r = []
            if not none:
                r.append((payload, facts))
            if not some:
                r.append((args[1], facts))
            return r
        if m in ("or_else", "unwrap_or_else"):
            r = [] if none else [(a if m == "or_else" else payload, facts)]
            if not some:
                rs = self.apply(ops[1], args[1], fn, [], facts)
                if rs is None:
                    return None
                r += rs
            return r
        if m == "or":
            return ([] if none else [(a, facts)]) + ([] if some else [(args[1], facts)])
        if m in ("is_some", "is_none") and (some or none):
            return [(("k", some == (m == "is_some")), facts)]
        if m == "filter":
            return [(N("Option", "None"), facts)] + ([] if none else [(a, facts)])
        return None


def mentions(v, i):
    if v == i:
        return True
    return isinstance(v, tuple) and any(mentions(x, i) for x in v)
