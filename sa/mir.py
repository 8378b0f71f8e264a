"""MIR model: functions, control flow, symbolic expressions, call graph."""
import functools, json, os, re, sys
from collections import defaultdict
import facts

SKIP_CRATES = {"asciidork_tck", "test_utils"}
GENERIC_RE = re.compile(r"<[^<>]*>")


def strip_generics(t):
    prev = None
    while prev != t:
        prev, t = t, GENERIC_RE.sub("", t)
    return t


@functools.lru_cache(None)
def short(path):
    """`a::b::Type::method` -> `Type::method`; `<a::T as b::Tr>::m` -> `<T as Tr>::m`;
    free function `a::b::f` -> `f`. Closures keep their suffix."""
    if path is None:
        return ""
    m = re.match(r"^<(.*) as (.*)>::(.*)$", path)
    if m:
        return "<%s as %s>::%s" % (last(m.group(1)), last(m.group(2)), m.group(3))
    parts = path.split("::")
    for i in range(1, len(parts)):
        if parts[i][:1].isupper():
            return "::".join(parts[i:])
    for i, p in enumerate(parts):
        if p.startswith("{"):
            return "::".join(parts[max(0, i - 1):])
    return parts[-1]


def last(p):
    p = strip_generics(p.strip())
    pre = ""
    while p.startswith("&"):
        pre += "&"
        p = p[1:].strip()
    return pre + p.split("::")[-1]


class Fn:
    __slots__ = ("path", "short", "file", "line", "argc", "kind", "crate", "locals", "vars", "blocks",
                 "parent", "types", "_defs", "_sym", "pub", "name", "promoted", "_preds", "_addr", "_nargs")

    def __init__(self, d, crate, types):
        self.path = d["path"]
        self.short = short(d["path"])
        self.name = d["path"].split("::")[-1]
        self.file, self.line, self.argc, self.kind = d["file"], d["line"], d["argc"], d["kind"]
        self.crate, self.types = crate, types
        self.locals, self.vars, self.blocks = d["locals"], d["vars"], d["blocks"]
        self.parent = d.get("parent")
        self.pub = d.get("pub", False)
        self.promoted = "{promoted#" in self.path
        self._defs = self._sym = self._preds = self._addr = None

    def __repr__(self):
        return "<Fn %s>" % self.short

    def ty(self, local):
        return self.types[self.locals[local][0]]

    def lname(self, local):
        return self.locals[local][1]

    # ---- definitions ----
    def defs(self):
        """local -> list of (block, idx, kind, payload) whole-local definitions; plus partial writes."""
        if self._defs is None:
            D = defaultdict(list)
            A = set()
            for bi, b in enumerate(self.blocks):
                for si, (pl, rv, ln) in enumerate(b["s"]):
                    if rv[0] == "dead":
                        continue
                    if len(pl) == 1:
                        D[pl[0]].append((bi, si, "rv", rv))
                    elif pl[1] != "*":
                        D[pl[0]].append((bi, si, "part", (pl, rv)))
                    if rv[0] == "ref" and rv[2] and "*" not in rv[1][1:] and \
                            "cell::RefMut<" not in self.ty(rv[1][0])[:24]:
                        A.add(rv[1][0])
                t = b["t"]
                if t[0] == "call":
                    pl = t[3]
                    if len(pl) == 1:
                        D[pl[0]].append((bi, -1, "call", t))
                    elif pl[1] != "*":
                        D[pl[0]].append((bi, -1, "part", (pl, t)))
            self._defs = D
            self._addr = A
        return self._defs

    def succs(self, bi):
        return term_succs(self.blocks[bi]["t"])

    def preds(self):
        if self._preds is None:
            P = defaultdict(list)
            for i in range(len(self.blocks)):
                for s in self.succs(i):
                    P[s].append(i)
            self._preds = P
        return self._preds

    def calls(self):
        for bi, b in enumerate(self.blocks):
            t = b["t"]
            if t[0] == "call":
                yield bi, t

    # ---- symbolic expressions ----
    def sym_local(self, l, depth=0):
        if self._sym is None:
            self._sym = {}
        if l in self._sym:
            return self._sym[l]
        D = self.defs()
        if 1 <= l <= self.argc:
            if any(d[2] != "part" for d in D.get(l, ())):
                r = ("var", self.lname(l) or "_%d" % l, l)
            else:
                r = ("arg", l, self.lname(l) or "_%d" % l)
        else:
            ds = D.get(l, [])
            full = [d for d in ds if d[2] != "part"]
            if len(full) == 1 and len(ds) == 1 and depth < 60 and (l not in self._addr):
                self._sym[l] = ("rec", l)
                k, pay = full[0][2], full[0][3]
                r = self.sym_rv(pay, depth + 1) if k == "rv" else self.sym_call(pay, depth + 1)
            elif len(full) == 1 and depth < 60 and l in self._addr:
                r = ("var", self.lname(l) or "_%d" % l, l)
            else:
                r = ("var", self.lname(l) or "_%d" % l, l)
        self._sym[l] = r
        return r

    def sym_place(self, pl, depth=0):
        e = self.sym_local(pl[0], depth)
        for p in pl[1:]:
            if p == "*" or p == "?":
                continue
            k = p[0]
            if k == "f":
                e = mkfield(e, p[1])
            elif k == "d":
                e = ("as", e, p[1])
            elif k == "i":
                e = ("idx", e, self.sym_local(p[1], depth + 1))
            elif k == "c":
                e = ("idx", e, ("k", ("end-" if p[2] else "") + str(p[1])))
            else:
                e = ("sub", e)
        return e

    def sym_op(self, o, depth=0):
        k = o[0]
        if k in ("p", "m"):
            return self.sym_place(o[1], depth)
        if k == "fn":
            return ("fn", o[2] or o[1])
        if k == "closure":
            return ("closure", o[1])
        if k == "promoted":
            return prog().sym_promoted(o[1])
        if k == "k":
            v = o[2]
            if v is None and len(o) > 3:
                return ("const", o[3])
            if isinstance(v, list):
                v = tuple(v)
            if v is None:
                return ("k", None, self.types[o[1]])
            t = self.types[o[1]]
            if isinstance(v, str) and t not in ("&str", "char", "&'static str") and not t.startswith("&"):
                return ("variant", strip_generics(t).split("::")[-1], v)
            return ("k", v)
        return ("?",)

    def sym_rv(self, rv, depth=0):
        k = rv[0]
        if k == "use":
            return self.sym_op(rv[1], depth)
        if k in ("ref", "raw"):
            return self.sym_place(rv[1], depth)
        if k == "cast":
            e = self.sym_op(rv[1], depth)
            if rv[4] == "int":
                return ("cast", e, self.types[rv[2]])
            return e
        if k == "bin":
            a, b = self.sym_op(rv[2], depth), self.sym_op(rv[3], depth)
            op = rv[1]
            if op.endswith("WithOverflow"):
                op = op[:-12]
                return ("pair", ("bin", op, a, b))
            return ("bin", op, a, b)
        if k == "un":
            return ("un", rv[1], self.sym_op(rv[2], depth))
        if k == "discr":
            return ("discr", self.sym_place(rv[1], depth), rv[2])
        if k == "agg":
            ops = tuple(self.sym_op(o, depth) for o in rv[2])
            a = rv[1]
            if a[0] == "adt":
                nm = a[1].split("::")[-1]
                if not ops:
                    return ("variant", nm, a[2])
                return ("adt", nm, a[2], ops, tuple(a[3]))
            if a[0] == "closure":
                return ("closure", a[1], ops, tuple(a[2]))
            return (a[0], ops)
        if k == "repeat":
            return ("repeat", self.sym_op(rv[1], depth))
        return ("?",)

    def sym_call(self, t, depth=0):
        f = t[1]
        args = tuple(self.sym_op(a, depth) for a in t[2])
        if f[0] == "fn":
            p = f[2] or f[1]
            n = short(p)
            # transparent wrappers
            tn = short(f[1])
            if tn in TRANSPARENT and args and not (tn in ("From::from", "Into::into") and f[2] in prog().fns):
                return args[0]
            if tn == "Index::index" and len(args) == 2:
                return ("idx", args[0], args[1])
            return ("call", n, args, tn)
        return ("callv", self.sym_op(f, depth), args)


TRANSPARENT = {"Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "AsRef::as_ref", "Clone::clone",
               "Into::into", "From::from", "ToOwned::to_owned", "IntoIterator::into_iter", "Vec::iter",
               "String::as_str", "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::cloned",
               "Option::copied", "Rc::clone", "RefCell::borrow", "RefCell::borrow_mut", "Vec::as_slice",
               "Option::as_deref_mut", "String::as_ref", "must_use"}


def mkfield(e, n):
    if e[0] == "pair":
        return e[1] if n == "0" else ("ovf",)
    if e[0] == "adt" and n in e[4]:
        i = e[4].index(n)
        if i < len(e[3]):
            return e[3][i]
    if e[0] == "as" and e[1][0] == "adt" and e[1][2] == e[2] and n in e[1][4]:
        return e[1][3][e[1][4].index(n)]
    if e[0] == "tuple" and n.isdigit() and int(n) < len(e[1]):
        return e[1][int(n)]
    if n == "pointer" or (n == "0" and e[0] == "field" and e[2] == "pointer"):
        return e
    return ("field", e, n)


def term_succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class Program:
    def __init__(self):
        self.dir, self.info = facts.dump()
        self.fns, self.adts, self.impls, self.traits, self.unsafe = {}, {}, [], [], []
        self.crates = []
        for f in sorted(os.listdir(self.dir)):
            if not f.endswith(".json"):
                continue
            with open(os.path.join(self.dir, f)) as fh:
                d = json.load(fh)
            if d["crate"] in SKIP_CRATES:
                continue
            self.crates.append(f[:-5])
            for x in d["fns"]:
                fn = Fn(x, d["crate"], d["types"])
                p = fn.path
                while p in self.fns:
                    p += "'"
                fn.path = p
                self.fns[p] = fn
            for a in d["adts"]:
                a["crate"] = d["crate"]
                a["types"] = d["types"]
                self.adts[a["path"]] = a
            for i in d["impls"]:
                i["crate"] = d["crate"]
                self.impls.append(i)
            self.traits += d["traits"]
            self.unsafe += d["unsafe"]
        self.adt_by_name = defaultdict(list)
        for p, a in self.adts.items():
            self.adt_by_name[p.split("::")[-1]].append(a)
        self.by_short = defaultdict(list)
        for fn in self.fns.values():
            self.by_short[fn.short].append(fn)
        # trait method -> impl method paths
        self.dispatch = defaultdict(list)
        local_traits = {t["path"] for t in self.traits}
        for i in self.impls:
            if i["trait"] not in local_traits:
                continue
            for tm, im in i["methods"]:
                self.dispatch[tm].append(im)
        self._prom = {}
        self._cg = None

    def bodies(self, crates=None, consts=False):
        for fn in self.fns.values():
            if fn.promoted:
                continue
            if not consts and not (fn.kind in ("Fn", "AssocFn", "Closure")):
                continue
            if crates and fn.crate not in crates:
                continue
            yield fn

    def find(self, sh, crate=None):
        r = [f for f in self.by_short.get(sh, []) if not f.promoted and (crate is None or f.crate == crate)]
        return r

    def one(self, sh, crate=None):
        r = self.find(sh, crate)
        if len(r) != 1:
            raise MissingAnchor("expected exactly one function `%s`, found %d" % (sh, len(r)))
        return r[0]

    def sym_promoted(self, p):
        if p not in self._prom:
            fn = self.fns.get(p)
            self._prom[p] = fn.sym_local(0) if fn else ("?", p)
        return self._prom[p]

    def variants(self, name):
        """discriminant value -> variant name for an ADT path/name"""
        std = {"Option": {0: "None", 1: "Some"}, "Result": {0: "Ok", 1: "Err"},
               "ControlFlow": {0: "Continue", 1: "Break"}, "Cow": {0: "Borrowed", 1: "Owned"},
               "Ordering": {-1: "Less", 255: "Less", 0: "Equal", 1: "Greater"}}
        a = self.adts.get(name)
        if a is None:
            b = name.split("::")[-1]
            if b in std:
                return std[b]
            c = self.adt_by_name.get(b, [])
            a = c[0] if len(c) == 1 else None
        if a is None:
            return {}
        return {int(v[1]): v[0] for v in a["variants"]}

    # ---- call graph ----
    def callees(self, f):
        """resolved local callees of call func operand; dynamic dispatch -> all impls"""
        if f[0] != "fn":
            return []
        out = []
        if f[2] and f[2] in self.fns:
            out.append(f[2])
        elif f[1] in self.dispatch:
            out += [x for x in self.dispatch[f[1]] if x in self.fns]
            if f[1] in self.fns:
                out.append(f[1])
        elif f[1] in self.fns:
            out.append(f[1])
        return out

    def callgraph(self):
        """fn path -> list of (callee path | external name, block, kind)"""
        if self._cg is None:
            cg = {}
            for fn in self.fns.values():
                L = []
                for bi, b in enumerate(fn.blocks):
                    for pl, rv, ln in b["s"]:
                        for o in rv_ops(rv):
                            if o[0] == "fn":
                                for c in self.callees(o):
                                    L.append((c, bi, "ref", ln))
                            elif o[0] == "closure":
                                L.append((o[1], bi, "closure", ln))
                            elif o[0] == "promoted":
                                L.append((o[1], bi, "promoted", ln))
                            elif o[0] == "k" and len(o) > 3 and o[3] in self.fns:
                                L.append((o[3], bi, "const", ln))
                        if rv[0] == "agg" and rv[1][0] == "closure":
                            L.append((rv[1][1], bi, "closure", ln))
                    t = b["t"]
                    if t[0] == "call":
                        f = t[1]
                        if f[0] == "fn":
                            cs = self.callees(f)
                            for c in cs:
                                L.append((c, bi, "call", t[5]))
                            if not cs:
                                L.append((f[2] or f[1], bi, "ext", t[5]))
                        for o in t[2]:
                            if o[0] == "fn":
                                for c in self.callees(o):
                                    L.append((c, bi, "ref", t[5]))
                            elif o[0] == "closure":
                                L.append((o[1], bi, "closure", t[5]))
                            elif o[0] == "promoted":
                                L.append((o[1], bi, "promoted", t[5]))
                cg[fn.path] = L
            self._cg = cg
        return self._cg

    def rev(self):
        R = defaultdict(set)
        for c, L in self.callgraph().items():
            for x in L:
                R[x[0]].add(c)
        return R

    def reach(self, roots):
        cg = self.callgraph()
        seen, st = set(), list(roots)
        while st:
            p = st.pop()
            if p in seen or p not in cg:
                continue
            seen.add(p)
            st += [x[0] for x in cg[p]]
        return seen


class MissingAnchor(Exception):
    pass


def rv_ops(rv):
    k = rv[0]
    if k in ("use", "cast", "repeat"):
        return [rv[1]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


_P = None


def prog():
    global _P
    if _P is None:
        _P = Program()
    return _P


def fmt(e):
    k = e[0]
    if k == "arg":
        return e[2]
    if k == "var":
        return "%s'%d" % (e[1], e[2])
    if k == "field":
        return fmt(e[1]) + "." + e[2]
    if k == "as":
        return "%s as %s" % (fmt(e[1]), e[2])
    if k == "k":
        return repr(e[1]) if e[1] is not None else "<%s>" % e[2]
    if k == "variant":
        return e[1] + "::" + e[2]
    if k == "adt":
        return "%s::%s{%s}" % (e[1], e[2], ", ".join(fmt(x) for x in e[3]))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(fmt(x) for x in e[2]))
    if k == "callv":
        return "(%s)(%s)" % (fmt(e[1]), ", ".join(fmt(x) for x in e[2]))
    if k == "bin":
        return "(%s %s %s)" % (fmt(e[2]), e[1], fmt(e[3]))
    if k == "un":
        return "%s(%s)" % (e[1], fmt(e[2]))
    if k == "discr":
        return "discr(%s)" % fmt(e[1])
    if k == "idx":
        return "%s[%s]" % (fmt(e[1]), fmt(e[2]))
    if k in ("tuple", "array"):
        return "(%s)" % ", ".join(fmt(x) for x in e[1])
    if k == "cast":
        return "%s as %s" % (fmt(e[1]), e[2])
    if k == "closure":
        return "|%s|" % short(e[1])
    if k == "fn":
        return short(e[1])
    return str(e)


def dumpfn(fn):
    print("fn", fn.path, fn.file, fn.line)
    for i, (t, n) in enumerate(fn.locals):
        if n or i <= fn.argc:
            print("   _%d %s: %s" % (i, n, fn.types[t]))
    for bi, b in enumerate(fn.blocks):
        print(" bb%d:" % bi)
        for pl, rv, ln in b["s"]:
            if rv[0] == "dead":
                continue
            print("   %s = %s  @%d" % (pstr(pl), fmt(fn.sym_rv(rv)) if rv[0] != "setdiscr" else rv, ln))
        t = b["t"]
        if t[0] == "call":
            print("   %s = %s -> %s @%d %s" % (pstr(t[3]), fmt(fn.sym_call(t)), t[4], t[5], t[6] or ""))
        elif t[0] == "switch":
            print("   switch %s %s else %s @%d" % (fmt(fn.sym_op(t[1])), t[2], t[3], t[5]))
        elif t[0] == "drop":
            print("   drop %s -> %d" % (pstr(t[1]), t[2]))
        else:
            print("  ", t)


def pstr(pl):
    s = "_%d" % pl[0]
    for p in pl[1:]:
        s += "*" if p == "*" else "." + str(p[1]) if p[0] in "f" else "[%s]" % p[1] if p[0] in ("i", "c") else "@" + str(p[1])
    return s


if __name__ == "__main__":
    P = prog()
    for a in sys.argv[1:]:
        for f in P.fns.values():
            if a in f.path:
                dumpfn(f)
