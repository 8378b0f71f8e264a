"""Path-sensitive typestate exploration over MIR (ESP style).

A state is (auto, facts): `auto` is the property automaton's hashable state,
`facts` a frozenset of (predicate, value) pairs the property tracks.  Inside a
frame the engine also tracks, per path, the constant/variant value of locals
that have more than one definition, so `matches!`, `let ok = a && b`, flag
variables and `?` are followed exactly.  Callees that can matter are analysed
in the caller's terms (arguments substituted), with memoised summaries;
recursion is cut with the inductive hypothesis supplied by the property."""
from mir import prog, short, mkfield, last, strip_generics, TRANSPARENT

OKISH = {"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break",
         "Continue": "Continue", "Break": "Break"}
# std adaptors that run a closure argument at most once / any number of times
ONCE = {"Option::map", "Option::and_then", "Option::unwrap_or_else", "Option::or_else", "Option::ok_or_else",
        "Option::map_or", "Option::map_or_else", "Option::is_some_and", "Option::is_none_or", "Option::filter",
        "Option::get_or_insert_with", "Option::inspect", "Option::then", "bool::then", "Result::map",
        "Result::map_err", "Result::and_then", "Result::unwrap_or_else", "Result::or_else", "Result::inspect_err",
        "Result::map_or", "Result::map_or_else", "Result::is_ok_and", "Result::inspect", "Option::take_if",
        "LocalKey::with", "Option::zip"}


class Budget(Exception):
    pass


def subst(e, m, cache):
    """rewrite ('arg', i, _) by m[i]; normalise projections"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] in ("k", "const", "fn", "variant"):
        return e            # before the cache: ("k", True) == ("k", 1) in Python
    r = cache.get(e)
    if r is not None:
        return r
    k = e[0] if e else None
    if k == "arg":
        r = m.get(e[1], e)
    elif k == "var":
        r = m.get(("v", e[2]), e)
        if r is e and len(e) == 3:
            r = ("var", e[1], e[2], m.get("fn"))
    elif k == "field":
        r = proj(subst(e[1], m, cache), e[2])
    elif k in ("k", "const", "fn", "variant"):
        r = e
    else:
        r = tuple(subst(x, m, cache) if isinstance(x, tuple) else x for x in e)
    cache[e] = r
    return r


def proj(b, n):
    if b[0] == "closure" and n.startswith("^") and len(b) > 3:
        if n[1:] in b[3]:
            return b[2][b[3].index(n[1:])]
    return mkfield(b, n)


class Frame:
    __slots__ = ("fn", "argm", "cache", "stack", "up")

    def __init__(self, fn, args, stack):
        self.fn = fn
        self.argm = {i + 1: a for i, a in enumerate(args)}
        self.argm["fn"] = fn.short
        self.cache = {}
        self.stack = stack

    def e(self, expr):
        return subst(expr, self.argm, self.cache)


class Spec:
    """override what the property needs"""
    max_states = 60000
    max_depth = 40

    def track(self, fr, expr, kind):
        return None  # predicate key to remember for a branch on `expr`

    def call(self, fr, bi, t, name, args, state):
        return None

    def assign(self, fr, bi, pl, rv, line, state):
        return state

    def descend(self, path):
        return False

    def recursion(self, fr, path, args, state):
        return [(state, None)]

    def loop_closure(self):
        return True


class Explorer:
    def __init__(self, spec, P=None):
        self.P = P or prog()
        self.spec = spec
        self.memo = {}
        self.n_states = 0
        self.fns_seen = set()
        self.sites = 0
        self._live = {}
        self._meta = {}

    # ---------- per-function metadata ----------
    def meta(self, fn):
        m = self._meta.get(fn.path)
        if m:
            return m
        D = fn.defs()
        tracked = set()
        has_dead = set()
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if rv[0] == "dead":
                    has_dead.add(pl[0])
        for l in range(len(fn.locals)):
            ty = fn.ty(l)
            full = [d for d in D.get(l, ()) if d[2] != "part"]
            if not full and not (1 <= l <= fn.argc):
                continue
            if ty == "bool":
                dropflag = (l not in has_dead and l != 0 and fn.lname(l) is None and l > fn.argc and
                            all(d[2] == "rv" and d[3][0] == "use" and d[3][1][0] == "k" for d in full))
                if not dropflag and (len(full) > 1 or l == 0 or (full and l <= fn.argc) or
                                     any(d[2] == "call" for d in full) or getattr(self.spec, "exact_option", False)):
                    tracked.add(l)
            else:
                tracked.add(l)
        # discriminant temps and tuple/ref temps: only interesting if enum-like is read
        live = self.liveness(fn)
        keep = self.slice(fn)
        if keep is not None:
            tracked &= keep
            live = [x & tracked for x in live]
        m = (tracked, live)
        self._meta[fn.path] = m
        return m

    def slice(self, fn):
        """locals that can decide a branch with something of interest between
        the branch and the point where its arms meet again"""
        hook = getattr(self.spec, "interesting", None)
        if hook is None:
            return None
        n = len(fn.blocks)
        inter = {i for i in range(n) if hook(fn, i, fn.blocks[i])}
        ipd = postdoms(fn)
        D = fn.defs()
        regions = {}
        for i in range(n):
            if fn.blocks[i]["t"][0] != "switch":
                continue
            stop = ipd.get(i)
            seen, st = set(), list(fn.succs(i))
            while st:
                b = st.pop()
                if b in seen or b == stop:
                    continue
                seen.add(b)
                st += fn.succs(b)
            regions[i] = seen
        rel, keep = set(), set()
        while True:
            new = {i for i, r in regions.items() if i not in rel and r & inter}
            if not new:
                break
            rel |= new
            work = []
            for i in new:
                o = fn.blocks[i]["t"][1]
                if o[0] in ("p", "m"):
                    work.append(o[1][0])
            while work:
                l = work.pop()
                if l in keep:
                    continue
                keep.add(l)
                ds = D.get(l, ())
                multi = len(ds) > 1
                for d in ds:
                    if multi:
                        inter.add(d[0])
                    if d[2] == "rv":
                        rv = d[3]
                        k = rv[0]
                        if k in ("use", "cast"):
                            work += [o[1][0] for o in [rv[1]] if o[0] in ("p", "m")]
                        elif k in ("ref", "discr"):
                            work.append(rv[1][0])
                        elif k == "un":
                            work += [o[1][0] for o in [rv[2]] if o[0] in ("p", "m")]
                        elif k == "bin":
                            work += [o[1][0] for o in rv[2:4] if o[0] in ("p", "m")]
                        elif k == "agg":
                            work += [o[1][0] for o in rv[2] if o[0] in ("p", "m")]
                    elif d[2] == "call":
                        work += [o[1][0] for o in d[3][2] if o[0] in ("p", "m")]
                    elif d[2] == "part":
                        x = d[3][1]
                        if x[0] == "use" and x[1][0] in ("p", "m"):
                            work.append(x[1][1][0])
        self.rel = getattr(self, "rel", {})
        self.rel[fn.path] = rel
        keep.add(0)
        return keep

    def liveness(self, fn):
        n = len(fn.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

        def ops(o):
            if o[0] in ("p", "m"):
                yield o[1][0]
                for p in o[1][1:]:
                    if p[0] == "i":
                        yield p[1]
        for i, b in enumerate(fn.blocks):
            u, d = use[i], dfn[i]

            def rd(l):
                if l not in d:
                    u.add(l)

            for pl, rv, ln in b["s"]:
                k = rv[0]
                if k in ("use", "cast", "repeat"):
                    for l in ops(rv[1]):
                        rd(l)
                elif k in ("ref", "raw", "discr"):
                    rd(rv[1][0])
                elif k == "bin":
                    for l in list(ops(rv[2])) + list(ops(rv[3])):
                        rd(l)
                elif k == "un":
                    for l in ops(rv[2]):
                        rd(l)
                elif k == "agg":
                    for o in rv[2]:
                        for l in ops(o):
                            rd(l)
                if len(pl) == 1:
                    d.add(pl[0])
                else:
                    rd(pl[0])
            t = b["t"]
            if t[0] == "switch":
                for l in ops(t[1]):
                    rd(l)
            elif t[0] == "call":
                for o in [t[1]] + t[2]:
                    for l in ops(o):
                        rd(l)
            elif t[0] == "assert":
                for l in ops(t[1]):
                    rd(l)
            elif t[0] == "return":
                rd(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in fn.succs(i):
                    out |= live[s]
                t = fn.blocks[i]["t"]
                dd = dfn[i]
                if t[0] == "call" and len(t[3]) == 1:
                    out = out - {t[3][0]}
                new = use[i] | (out - dd)
                if new != live[i]:
                    live[i] = new
                    changed = True
        return live

    # ---------- evaluation ----------
    def value(self, fr, env, e):
        """resolve an expression to a constant/tag if known on this path: returns expr"""
        if e[0] == "var" and len(e) == 3 and e[2] in env:
            return env[e[2]]
        return e

    def rv_expr(self, fr, env, rv):
        fn = fr.fn
        if rv[0] in ("use",):
            return self.op_expr(fr, env, rv[1])
        if rv[0] == "un" and rv[1] == "Not":
            v = self.op_expr(fr, env, rv[2])
            if v[0] == "k" and isinstance(v[1], bool):
                return ("k", not v[1])
            return ("un", "Not", v)
        if rv[0] in ("ref",) and len(rv[1]) == 1 and rv[1][0] in env:
            return env[rv[1][0]]
        if rv[0] == "ref" and len(rv[1]) == 2 and rv[1][1] == "*" and rv[1][0] in env:
            return env[rv[1][0]]
        if rv[0] == "agg" and rv[1][0] in ("tuple", "adt"):
            ops = tuple(self.op_expr(fr, env, o) for o in rv[2])
            if rv[1][0] == "tuple":
                return ("tuple", ops)
            nm = rv[1][1].split("::")[-1]
            if not ops:
                return ("variant", nm, rv[1][2])
            return ("adt", nm, rv[1][2], ops, tuple(rv[1][3]))
        return fr.e(fn.sym_rv(rv))

    def op_expr(self, fr, env, o):
        if o[0] in ("p", "m"):
            return self.place_expr(fr, env, o[1])
        return fr.e(fr.fn.sym_op(o))

    def place_expr(self, fr, env, pl):
        if pl[0] in env:
            e = env[pl[0]]
            for p in pl[1:]:
                if p == "*" or p == "?":
                    continue
                if p[0] == "f":
                    e = proj(e, p[1])
                elif p[0] == "d":
                    e = ("as", e, p[1])
                elif p[0] == "i":
                    e = ("idx", e, fr.e(fr.fn.sym_local(p[1])))
                elif p[0] == "c":
                    e = ("idx", e, ("k", ("end-" if p[2] else "") + str(p[1])))
                else:
                    e = ("sub", e)
            return e
        return self.withenv(fr, env, fr.e(fr.fn.sym_place(pl)))

    def withenv(self, fr, env, e):
        """replace multi-defined locals by their value on this path"""
        if not env or not isinstance(e, tuple) or not e:
            return e
        if e[0] == "var" and len(e) > 3:
            if e[3] == fr.argm["fn"] and e[2] in env:
                return env[e[2]]
            return e
        if e[0] == "field":
            b = self.withenv(fr, env, e[1])
            return proj(b, e[2]) if b is not e[1] else e
        if e[0] in ("as", "discr", "idx"):
            b = self.withenv(fr, env, e[1])
            return (e[0], b) + e[2:] if b is not e[1] else e
        if e[0] == "un":
            b = self.withenv(fr, env, e[2])
            return ("un", e[1], b) if b is not e[2] else e
        return e

    @staticmethod
    def tag(e):
        if e[0] == "variant":
            return e[2]
        if e[0] == "adt":
            return e[2]
        if e[0] == "tagged":
            return e[2]
        return None

    # ---------- running ----------
    def run(self, fn, args, state, stack=()):
        """-> set of (retval expr or None, state)"""
        key = (fn.path, tuple(args), state)
        if key in self.memo:
            return self.memo[key]
        if len(stack) > self.spec.max_depth:
            raise Budget("call depth in " + fn.short)
        self.fns_seen.add(fn.path)
        fr = Frame(fn, args, stack + ((fn.path, 0),))
        res = self.flow(fr, state)
        self.memo[key] = res
        return res

    def flow(self, fr, state):
        fn, spec = fr.fn, self.spec
        tracked, live = self.meta(fn)
        results = set()
        start = (0, (), state)
        seen = {start}
        work = [start]
        while work:
            bi, envt, st = work.pop()
            self.n_states += 1
            if self.n_states > spec.max_states:
                raise Budget("state budget exhausted in " + fn.short)
            env = dict(envt)
            b = fn.blocks[bi]
            states = [(env, st)]
            for si, (pl, rv, ln) in enumerate(b["s"]):
                if rv[0] == "dead":
                    for en, s in states:
                        en.pop(pl[0], None)
                    continue
                nxt = []
                for en, s in states:
                    fr.up = en
                    if len(pl) == 1:
                        l = pl[0]
                        if l in tracked and rv[0] not in ("setdiscr",):
                            self.bind(fr, en, l, rv)
                        else:
                            en.pop(l, None)
                    else:
                        if pl[1] != "*":
                            en.pop(pl[0], None)
                    s2 = spec.assign(fr, bi, pl, rv, ln, s)
                    if s2 is not None:
                        nxt.append((en, s2))
                states = nxt
            for en, s in states:
                fr.up = en
                for nb, en2, s2 in self.term(fr, bi, b["t"], en, s, results):
                    lv = live[nb]
                    envk = tuple(sorted(((k, v) for k, v in en2.items() if k in lv), key=lambda x: x[0]))
                    n = (nb, envk, s2)
                    if n not in seen:
                        seen.add(n)
                        work.append(n)
        return frozenset(results)

    def bind(self, fr, en, l, rv):
        """remember path value of local l when it is multi-defined or carries a tag"""
        fn = fr.fn
        multi = sum(1 for d in fn.defs().get(l, ()) if d[2] != "part") > 1 or l <= fn.argc or \
            fn.ty(l) == "bool" and getattr(self.spec, "exact_option", False)
        v = self.rv_expr(fr, en, rv)
        en.pop(l, None)
        if v[0] == "k" and isinstance(v[1], (bool, int)) and multi:
            if isinstance(v[1], bool) or self.keep_int(fr, l):
                en[l] = v
        elif self.tag(v) is not None:
            if self.simple(v) or not multi:
                if v[0] == "adt" and not self.simple(v):
                    en[l] = ("tagged", v[1], v[2])
                    if not multi:
                        en.pop(l)
                        return
                else:
                    en[l] = v
            else:
                en[l] = ("tagged", v[1], v[2])
        elif v[0] == "tuple" and getattr(self.spec, "exact_option", False) and size(v) < 80:
            en[l] = v
        elif v[0] == "tuple" and any(self.tag(x) is not None or (x[0] == "k" and isinstance(x[1], bool)) for x in v[1]):
            if self.simple(v):
                en[l] = v
        elif fn.ty(l) == "bool" and multi:
            if not self.mentions(v, l):
                en[l] = v
        elif multi and self.spec_tracks(fr, l):
            if not self.mentions(v, l):
                en[l] = v

    def keep_int(self, fr, l):
        return False

    def spec_tracks(self, fr, l):
        f = getattr(self.spec, "track_local", None)
        return f(fr, l) if f else False

    def simple(self, v, d=0):
        if d > 3:
            return False
        if v[0] in ("variant", "k", "tagged", "arg"):
            return True
        if v[0] == "adt":
            return len(v[3]) <= 2 and all(self.simple(x, d + 1) for x in v[3])
        if v[0] == "tuple":
            return len(v[1]) <= 3 and all(self.simple(x, d + 1) for x in v[1])
        if v[0] == "field":
            return self.simple(v[1], d + 1)
        return False

    def mentions(self, v, l):
        if not isinstance(v, tuple):
            return False
        if v and v[0] == "var" and len(v) > 2 and v[2] == l:
            return True
        return any(self.mentions(x, l) for x in v if isinstance(x, tuple))

    # branch on boolean expr: yields (truth, facts')
    def decide(self, fr, env, e, st):
        neg = False
        while True:
            if e[0] == "un" and e[1] == "Not":
                e, neg = e[2], not neg
                continue
            if e[0] == "call" and e[3] in ("PartialEq::ne",):
                e = ("call", "eq", e[2], "PartialEq::eq")
                neg = not neg
                continue
            if e[0] == "bin" and e[1] == "Ne":
                e = ("bin", "Eq") + e[2:]
                neg = not neg
                continue
            if e[0] == "bin" and e[1] == "Eq" and len(e) == 4 or e[0] == "call" and e[3] == "PartialEq::eq" and len(e[2]) == 2:
                x, y = (e[2], e[3]) if e[0] == "bin" else e[2]
                if x[0] == "k" and isinstance(x[1], bool):
                    x, y = y, x
                if y[0] == "k" and isinstance(y[1], bool):
                    # comparison with a literal bool
                    e, neg = x, neg != (not y[1])
                    continue
            break
        if e[0] == "k" and isinstance(e[1], bool):
            return [(e[1] != neg, st)]
        e = norm_bool(e)
        if e[0] == "k":
            return [(e[1] != neg, st)]
        if e[0] == "isvar":
            t = self.tag(e[1])
            if t is not None:
                return [((t in e[2]) != neg, st)]
        key = self.spec.track(fr, e, "bool")
        if key is None:
            return [(True, st), (False, st)]
        auto, facts = st
        known = dict(facts).get(key)
        if known is not None:
            return [(known != neg, st)]
        out = []
        for v in (True, False):
            nf = self.add_fact(facts, key, v)
            if nf is not None:
                out.append((v != neg, (auto, nf)))
        return out

    def add_fact(self, facts, key, v):
        f = getattr(self.spec, "learn", None)
        if f:
            return f(facts, key, v)
        return facts | {(key, v)}

    def term(self, fr, bi, t, env, st, results):
        fn, spec = fr.fn, self.spec
        k = t[0]
        if k == "goto":
            return [(t[1], env, st)]
        if k == "return":
            rv = env.get(0)
            if rv is None:
                rv = fr.e(fn.sym_local(0))
                if rv[0] == "var":
                    rv = None
            if rv is not None and not self.ret_ok(rv):
                tg = self.tag(rv)
                rv = ("tagged", rv[1], tg) if tg else rv
            s2 = st
            h = getattr(spec, "at_return", None)
            if h:
                s2 = h(fr, rv, st)
                if s2 is None:
                    return []
            results.add((rv, s2))
            return []
        if k == "drop":
            h = getattr(spec, "drop", None)
            if h:
                st = h(fr, bi, t, st)
            return [(t[2], env, st)]
        if k == "assert":
            h = getattr(spec, "on_assert", None)
            if h:
                st = h(fr, bi, t, st)
            return [(t[4], env, st)]
        if k == "switch":
            return self.switch(fr, bi, t, env, st)
        if k == "call":
            return self.call(fr, bi, t, env, st)
        return []

    def ret_ok(self, rv):
        return size(rv) <= 40

    def switch(self, fr, bi, t, env, st):
        fn = fr.fn
        rel = getattr(self, "rel", {}).get(fn.path)
        if rel is not None and bi not in rel:
            return [(b, dict(env), st) for b in set(fn.succs(bi))]
        ty = fn.types[t[4]]
        op = t[1]
        if ty == "bool":
            e = self.op_expr(fr, env, op)
            out = []
            for val, s2 in self.decide(fr, env, e, st):
                tgt = None
                for v, b in t[2]:
                    if int(v) == int(val):
                        tgt = b
                if tgt is None:
                    tgt = t[3]
                out.append((tgt, dict(env), s2))
            return out
        # discriminant / integer / char
        pl, adt = self.discr_place(fn, op)
        if pl is not None:
            e = self.place_expr(fr, env, pl)
            names = self.P.variants(adt)
            tg = self.tag(e)
            allv = set(names.values())
            out = []
            covered = set()
            key = None
            if tg is None:
                key = self.spec.track(fr, ("discr", e, adt.split("::")[-1]), "discr")
            known = dict(st[1]).get(key) if key is not None else None
            for v, b in t[2]:
                vn = names.get(int(v), str(v))
                covered.add(vn)
                if tg is not None and tg != vn:
                    continue
                if known is not None and vn not in known:
                    continue
                out.append((b, vn, frozenset([vn])))
            rest = allv - covered if allv else None
            if (rest is None or rest) and not (tg is not None and tg in covered):
                if known is not None and rest is not None:
                    rest = rest & known
                if known is None or rest:
                    out.append((t[3], next(iter(rest)) if rest and len(rest) == 1 else None,
                                frozenset(rest) if rest else None))
            if tg is None and known is not None:
                pass
            res = []
            for b, vn, vs in out:
                en = dict(env)
                if vn and len(pl) == 1 and tg is None:
                    l = pl[0]
                    if l not in en and fn.sym_local(l)[0] in ("var", "call", "callv"):
                        en[l] = ("tagged", adt.split("::")[-1], vn)
                s2 = st
                if key is not None and vs is not None:
                    auto, facts = st
                    if known is not None:
                        facts = frozenset(x for x in facts if x[0] != key)
                    nf = self.add_fact(facts, key, vs)
                    if nf is None:
                        continue
                    s2 = (auto, nf)
                res.append((b, en, s2))
            return res
        e = self.op_expr(fr, env, op)
        if e[0] == "k" and isinstance(e[1], int):
            for v, b in t[2]:
                if int(v) == e[1]:
                    return [(b, env, st)]
            return [(t[3], env, st)]
        key = self.spec.track(fr, ("int", e), "int")
        out = []
        known = dict(st[1]).get(key) if key is not None else None
        vals = []
        for v, b in t[2]:
            vals.append(v)
            if known is not None and known[0] == "=" and known[1] != v:
                continue
            if known is not None and known[0] == "!" and v in known[1]:
                continue
            s2 = st
            if key is not None:
                s2 = (st[0], frozenset(x for x in st[1] if x[0] != key) | {(key, ("=", v))})
            out.append((b, dict(env), s2))
        if not (known is not None and known[0] == "=" and known[1] in vals):
            s2 = st
            if key is not None and known is None:
                s2 = (st[0], st[1] | {(key, ("!", tuple(vals)))})
            out.append((t[3], dict(env), s2))
        return out

    def discr_place(self, fn, op):
        if op[0] not in ("p", "m") or len(op[1]) != 1:
            return None, None
        l = op[1][0]
        ds = fn.defs().get(l, [])
        if len(ds) == 1 and ds[0][2] == "rv" and ds[0][3][0] == "discr":
            return ds[0][3][1], ds[0][3][2]
        return None, None

    def call(self, fr, bi, t, env, st):
        fn, spec = fr.fn, self.spec
        f = t[1]
        args = tuple(self.op_expr(fr, env, o) for o in t[2])
        dest, tgt = t[3], t[4]
        name = short(f[2] or f[1]) if f[0] == "fn" else None
        tname = short(f[1]) if f[0] == "fn" else None
        self.sites += 1
        outs = None
        if name is not None:
            outs = spec.call(fr, bi, t, (name, tname, f), args, st)
        else:
            h = getattr(spec, "callv", None)
            if h:
                outs = h(fr, bi, t, self.op_expr(fr, env, f), args, st)
        if outs is None:
            outs = self.default_call(fr, bi, t, f, name, tname, args, env, st)
        if tgt is None:
            return []
        res = []
        seen = set()
        for s2, rv in outs:
            if (s2, rv) in seen:
                continue
            seen.add((s2, rv))
            en = dict(env)
            if len(dest) == 1:
                l = dest[0]
                en.pop(l, None)
                if rv is not None:
                    tg = self.tag(rv)
                    multi = len([d for d in fn.defs().get(l, ()) if d[2] != "part"]) > 1
                    if rv[0] == "k" and isinstance(rv[1], bool):
                        en[l] = rv
                    elif tg is not None:
                        en[l] = rv if self.simple(rv) else ("tagged", rv[1] if isinstance(rv[1], str) else "?", tg)
                    elif rv[0] == "tuple" and self.simple(rv):
                        en[l] = rv
                    elif fn.ty(l) == "bool" or multi and self.spec_tracks(fr, l) or \
                            getattr(spec, "keep_ret", None) and spec.keep_ret(fr, l, rv):
                        en[l] = rv
                elif len([d for d in fn.defs().get(l, ()) if d[2] != "part"]) > 1 and fn.ty(l) == "bool":
                    en[l] = fr.e(fn.sym_call(t))
            elif dest[1] != "*":
                en.pop(dest[0], None)
            # a &mut borrow of a tracked local passed to the callee invalidates its value
            for o in t[2]:
                self.havoc(fn, o, en)
            res.append((tgt, en, s2))
        return res

    def havoc(self, fn, o, en):
        if o[0] in ("p", "m") and len(o[1]) == 1:
            ds = fn.defs().get(o[1][0], [])
            if len(ds) == 1 and ds[0][2] == "rv":
                rv = ds[0][3]
                if rv[0] == "ref" and rv[2] and "*" not in rv[1][1:]:
                    en.pop(rv[1][0], None)
                elif rv[0] == "ref" and rv[2] and len(rv[1]) == 2:
                    self.havoc(fn, ["p", [rv[1][0]]], en)
                elif rv[0] == "use":
                    self.havoc(fn, rv[1], en)

    def default_call(self, fr, bi, t, f, name, tname, args, env, st):
        spec, P = self.spec, self.P
        if f[0] != "fn":
            e = self.op_expr(fr, env, f)
            if e[0] == "closure" and spec.descend(e[1]) and e[1] in P.fns:
                return [(s, r) for r, s in self.enter(fr, e[1], (e,) + args, st)]
            return [(st, None)]
        # `?`
        if tname == "Try::branch":
            tg = self.tag(args[0]) if args else None
            if tg in OKISH:
                return [(st, ("tagged", "ControlFlow", OKISH[tg]))]
            # fork so that a later switch can be correlated with the operand
            return [(st, None)]
        if tname == "FromResidual::from_residual":
            ty = fr.fn.ty(t[3][0]) if len(t[3]) == 1 else ""
            n = "None" if "option::Option" in ty.split("<")[0] else "Err"
            return [(st, ("tagged", "Result" if n == "Err" else "Option", n))]
        if tname in TRANSPARENT and args and self.tag(args[0]) is not None and not P.callees(f):
            return [(st, args[0])]
        if tname in ("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err"):
            tg = self.tag(args[0])
            if tg:
                v = tg in ("Some", "Ok")
                if tname.endswith("none") or tname.endswith("err"):
                    v = not v
                return [(st, ("k", v))]
        # closure invocation through FnOnce/FnMut/Fn
        if tname in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call") and args:
            c = args[0]
            if c[0] == "closure" and c[1] in P.fns and spec.descend(c[1]):
                a = args[1][1] if len(args) > 1 and args[1][0] == "tuple" else ()
                return [(s, r) for r, s in self.enter(fr, c[1], (c,) + tuple(a), st)]
            if c[0] == "fn" and c[1] in P.fns and spec.descend(c[1]):
                a = args[1][1] if len(args) > 1 and args[1][0] == "tuple" else ()
                return [(s, r) for r, s in self.enter(fr, c[1], tuple(a), st)]
        cs = P.callees(f)
        outs = []
        local = False
        for c in cs:
            if spec.descend(c):
                local = True
                for r, s in self.enter(fr, c, args, st):
                    outs.append((s, r))
        if cs and not local:
            rv = fr.e(fr.fn.sym_call(t)) if fr.fn.types[fr.fn.locals[t[3][0]][0]] == "bool" else None
            return [(st, rv)]
        if local:
            if len(cs) > 1:
                # dispatch to an implementation not descended into
                if any(not spec.descend(c) for c in cs):
                    outs.append((st, None))
            return outs
        # external callee: run closure arguments
        clos = [a for a in args if a[0] == "closure" and a[1] in P.fns and spec.descend(a[1])]
        clos += [a for a in args if a[0] == "fn" and a[1] in P.fns and spec.descend(a[1])]
        if len(clos) == 1 and tname in ("Option::is_some_and", "Option::is_none_or", "Option::map_or") and \
                getattr(spec, "exact_option", False):
            outs, absent = [], {"Option::is_some_and": ("k", False), "Option::is_none_or": ("k", True)}.get(tname) or args[1]
            tg = self.tag(args[0])
            key = spec.track(fr, ("discr", args[0], "Option"), "discr") if tg is None else None
            known = dict(st[1]).get(key) if key is not None else None
            for vn in ("Some", "None"):
                if tg not in (None, vn) or known is not None and vn not in known:
                    continue
                s = st
                if key is not None:
                    nf = self.add_fact(frozenset(x for x in st[1] if x[0] != key), key, frozenset([vn]))
                    if nf is None:
                        continue
                    s = (st[0], nf)
                if vn == "None":
                    outs.append((s, absent))
                    continue
                o = args[0] if args[0][0] != "tagged" else fr.e(fr.fn.sym_op(t[2][0]))
                v = proj(("as", o, "Some"), "0")
                c = clos[0]
                a = (c, v) if c[0] == "closure" else (v,)
                outs += [(s2, r) for r, s2 in self.enter(fr, c[1], a, s)]
            return outs
        if clos:
            cur = {st}
            once = tname in ONCE
            for _ in range(1 if once else 6):
                new = set(cur)
                for c in clos:
                    cf = P.fns[c[1]]
                    for s in cur:
                        a = [("cl", name, i) for i in range(max(0, cf.argc))]
                        if c[0] == "closure":
                            a[0] = c
                            if len(a) > 1:
                                a[1] = ("elem", args[0])
                        elif a:
                            a[0] = ("elem", args[0])
                        for r, s2 in self.enter(fr, c[1], tuple(a), s):
                            new.add(s2)
                if new == cur:
                    break
                cur = new
            return [(s, None) for s in cur]
        rv = None
        if len(t[3]) == 1 and fr.fn.ty(t[3][0]) == "bool":
            rv = ("call", name, args, tname)
        return [(st, rv)]

    def enter(self, fr, path, args, st):
        if any(p == path for p, _ in fr.stack):
            return [(r, s) for s, r in self.spec.recursion(fr, path, args, st)]
        cf = self.P.fns[path]
        a = list(args)
        if cf.kind == "Closure" and cf.argc == 2 and len(a) > 2:
            a = [a[0], ("tuple", tuple(a[1:]))]
        return self.run(cf, tuple(a), st, fr.stack)


def postdoms(fn):
    """immediate postdominators (virtual exit = -1)"""
    n = len(fn.blocks)
    succ = {i: list(fn.succs(i)) or [-1] for i in range(n)}
    pred = {}
    for i, ss in succ.items():
        for x in ss:
            pred.setdefault(x, []).append(i)
    # reverse postorder from exit on reversed graph
    order, seen = [], set()
    st = [(-1, iter(pred.get(-1, ())))]
    seen.add(-1)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(pred.get(v, ()))))
                break
        else:
            order.append(u)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {-1: -1}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == -1:
                continue
            new = None
            for s in succ[b]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        x, y = new, s
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom


def size(e):
    if not isinstance(e, tuple):
        return 1
    return sum(size(x) for x in e)


def norm_bool(e):
    """canonical boolean atoms: ('isvar', x, {variants}) for enum comparisons and is_some/is_none"""
    if e[0] == "call":
        n, a, tn = e[1], e[2], e[3]
        if tn in ("Option::is_some", "Option::is_none"):
            return ("isvar", a[0], ("Some",) if tn == "Option::is_some" else ("None",))
        if tn in ("Result::is_ok", "Result::is_err"):
            return ("isvar", a[0], ("Ok",) if tn == "Result::is_ok" else ("Err",))
        if tn == "PartialEq::eq" and len(a) == 2:
            x, y = a
            if x[0] == "variant":
                x, y = y, x
            if y[0] == "variant":
                if x[0] == "variant":
                    return ("k", x[2] == y[2])
                return ("isvar", x, (y[2],))
            if x[0] == "k" and y[0] != "k":
                x, y = y, x
            return ("eq", x, y)
    if e[0] == "bin" and e[1] == "Eq":
        x, y = e[2], e[3]
        if x[0] == "k":
            x, y = y, x
        if x[0] == "k" and y[0] == "k":
            return ("k", x[1] == y[1])
        if x[0] == "cast" or x[0] == "discr":
            pass
        return ("eq", x, y)
    return e
