"""Joint abstract interpretation of the evaluator and a rendering backend.

The evaluator's MIR is executed symbolically-abstractly together with the MIR of
one concrete backend: the output buffers are abstracted to the stack of open HTML
elements plus a small lexer state, renderer state (flags, stacks, counters) is
kept field by field, document data stays opaque.  Branch conditions on opaque
data are remembered exactly where another branch tests the same condition, so
what an `enter_x` decided is what the matching `exit_x` decides.  Recursive
evaluator functions are cut with a contract that is itself checked (the induction
hypothesis): output balanced, buffers as found, renderer state restored except
for a computed set of fields."""
import sys
import time
from mir import prog, short, strip_generics, last
from engine import Budget

INLINE = {"asciidork_backend", "asciidork_backend_html5s", "asciidork_dr_html_backend", "asciidork_eval"}
SMALL = {"asciidork_ast", "asciidork_core"}
VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr", "!doctype"}
TRUE, FALSE, UNIT = ("k", "b", 1), ("k", "b", 0), ("k", "u", None)
NONE = ("adt", "core::option::Option", "None", (), ())
EMPTY = ("T", ())


def some(v):
    return ("adt", "core::option::Option", "Some", ("0",), (v,))


class Dead(Exception):
    """path is infeasible or ends here"""


class Cap(Exception):
    """step cap of this refinement round reached"""


class Viol(Exception):
    def __init__(self, kind, detail):
        self.kind, self.detail = kind, detail


# ------------------------------------------------------------------ html lexer
def vrepr(v, d=0):
    k = v[0]
    if k == "k":
        return str(v[2])
    if k == "a":
        return v[1]
    if k == "f":
        return vrepr(v[1], d) + "." + str(v[2])
    if k == "as":
        return vrepr(v[1], d)
    if k == "app":
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(vrepr(x, d + 1) for x in v[2]) if d < 3 else "..")
    if k == "fresh":
        return "#%s" % v[1]
    if k == "adt":
        return v[2] + ("(%s)" % ", ".join(vrepr(x, d + 1) for x in v[4]) if v[4] and d < 3 else "")
    if k in ("discr", "not", "cast"):
        return "%s(%s)" % (k, vrepr(v[1], d))
    if k == "test":
        return "%s=%s" % (krepr(v[1]), v[2])
    if k == "T":
        return "".join(p[1] if p[0] == "l" else "{" + vrepr(p[1], d + 1) + "}" for p in v[1])
    if k == "aff":
        return "%s%+d" % (vrepr(v[1], d), v[2])
    if k == "upd":
        return vrepr(v[1], d) + "'"
    if k == "it":
        return "it"
    return k


def krepr(key):
    return "%s" % (vrepr(key[1]) if isinstance(key[1], tuple) else key[1]) if key[0] != "in" else "%s in %s" % (key[2], vrepr(key[1]))


class Html:
    """('H', start, opens, lex, tail)
    lex: ('data',) ('lt',) ('name', s) ('tag', s) ('eq', s) ('attr', s, quote) ('slash', s) ('cname', s) ('bang', s) ('raw', s, partial)
    tail: None unknown | ('c', char, opens, lex) state before the last (literal) char"""

    @staticmethod
    def lit(h, s):
        _, start, opens, lex, tail = h
        for c in s:
            before = (opens, lex)
            k = lex[0]
            if k == "data":
                if c == "<":
                    lex = ("lt",)
            elif k == "lt":
                if c == "/":
                    lex = ("cname", "")
                elif c == "!":
                    lex = ("bang", "!")
                elif c.isalpha():
                    lex = ("name", c)
                else:
                    raise Viol("lex", "`<` followed by %r" % c)
            elif k == "name":
                if c == ">":
                    opens, lex = Html.opened(opens, lex[1])
                elif c.isspace():
                    lex = ("tag", lex[1])
                elif c == "/":
                    lex = ("slash", lex[1])
                elif c.isalnum() or c in "-{}":
                    lex = ("name", lex[1] + c)
                else:
                    raise Viol("lex", "%r in element name <%s" % (c, lex[1]))
            elif k == "tag":
                if c == ">":
                    opens, lex = Html.opened(opens, lex[1])
                elif c == "/":
                    lex = ("slash", lex[1])
                elif c == "=":
                    lex = ("eq", lex[1])
                elif c in "\"'<":
                    raise Viol("lex", "%r inside the tag <%s .. >" % (c, lex[1]))
            elif k == "eq":
                if c in "\"'":
                    lex = ("attr", lex[1], c)
                elif c == ">":
                    opens, lex = Html.opened(opens, lex[1])
                else:
                    lex = ("uq", lex[1])
            elif k == "uq":
                if c.isspace():
                    lex = ("tag", lex[1])
                elif c == ">":
                    opens, lex = Html.opened(opens, lex[1])
            elif k == "attr":
                if c == lex[2]:
                    lex = ("tag", lex[1])
                elif c in "<>" and lex[2] == '"' and c == "<":
                    raise Viol("lex", "`<` inside an attribute value of <%s>" % lex[1])
            elif k == "slash":
                if c == ">":
                    lex = ("data",)
                else:
                    raise Viol("lex", "`/` inside the tag <%s .. >" % lex[1])
            elif k == "cname":
                if c == ">":
                    opens = Html.closed(opens, lex[1], start)
                    lex = ("data",)
                else:
                    lex = ("cname", lex[1] + c)
            elif k == "bang":
                if lex[1].startswith("!--"):
                    if c == ">" and lex[1].endswith("--"):
                        lex = ("data",)
                    else:
                        lex = ("bang", "!--" + (lex[1][3:] + c)[-2:])
                elif c == ">":
                    lex = ("data",)
                else:
                    lex = ("bang", (lex[1] + c)[:10])
            elif k == "raw":
                part = lex[2] + c
                want = "</" + lex[1]
                if part == want:
                    lex = ("cname", lex[1])
                elif want.startswith(part):
                    lex = ("raw", lex[1], part)
                else:
                    lex = ("raw", lex[1], "<" if c == "<" else "")
            tail = ("c", c) + before if c in ">\"' " else ("c", c, None, None)
        return ("H", start, opens, lex, tail)

    @staticmethod
    def opened(opens, name):
        if len(opens) > 20:
            raise Viol("loop", "an iteration leaves open: <%s>" % name)
        if name.lower() in VOID:
            return opens, ("data",)
        if name.lower() in ("script", "style"):
            return opens + (name,), ("raw", name.lower(), "")
        return opens + (name,), ("data",)

    @staticmethod
    def closed(opens, name, start):
        name = name.strip()
        if not opens:
            raise Viol("underflow", "</%s> closes an element that was not opened here" % name)
        if opens[-1] != name:
            raise Viol("mismatch", "</%s> while <%s> is the innermost open element" % (name, opens[-1]))
        return opens[:-1]

    @staticmethod
    def dyn(h, v):
        _, start, opens, lex, tail = h
        k = lex[0]
        r = "{%s}" % vrepr(v)
        if k in ("data", "attr", "raw", "bang"):
            pass
        elif k in ("name", "cname"):
            lex = (k, lex[1] + r)
        elif k == "lt":
            lex = ("name", r)
        elif k == "eq":
            lex = ("uq", lex[1])
        elif k == "uq":
            pass
        elif k == "tag":
            # attribute name or ready-made attribute text
            pass
        else:
            raise Viol("lex", "document text in lexer state %s" % (lex,))
        return ("H", start, opens, lex, None)

    @staticmethod
    def pop(h):
        _, start, opens, lex, tail = h
        if tail is None:
            raise Viol("pop", "removes the last character of unknown output")
        if tail[0] == "s":
            if tail[1][-1] in "<>" or lex[0] != "data":
                raise Viol("pop", "removes the last character of markup")
            return ("H", start, opens, lex, ("s", tail[1][:-1]) if tail[1][1:] else None)
        if tail[2] is None:
            if lex[0] in ("cname", "name") and len(lex[1]) > 1:
                lex = (lex[0], lex[1][:-1])
            elif lex[0] in ("cname", "name", "lt", "slash"):
                raise Viol("pop", "removes part of a tag")
            return ("H", start, opens, lex, None)
        if tail[1] == ">" and tail[3][0] == "cname":
            raise Viol("pop", "removes the `>` of a closing tag </%s>" % tail[3][1])
        return ("H", start, tail[2], tail[3], None)


    @staticmethod
    def last(h):
        t = h[4]
        return None if t is None else t[1][-1]

    @staticmethod
    def cut(h, n):
        """remove the last n bytes, known from a preceding test of the output's end"""
        _, start, opens, lex, tail = h
        if tail is None or tail[0] != "s" or lex[0] != "data" or len(tail[1]) < n:
            return None
        x = tail[1][-n:]
        if x.startswith("</") and x.endswith(">") and x[2:-1].isalnum():
            return ("H", start, opens + (x[2:-1],), ("data",), None)
        if "<" in x or ">" in x:
            return None
        return ("H", start, opens, lex, None)


# ------------------------------------------------------------------ state
class St:
    __slots__ = ("mem", "facts", "trace", "_k")

    def __init__(self, mem, facts, trace=None):
        self.mem, self.facts, self.trace, self._k = mem, facts, trace, None

    def copy(self):
        return St(dict(self.mem), self.facts, self.trace)

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.mem.items()), frozenset(self.facts.items()))
        return self._k

    def ev(self, s):
        r = St(self.mem, self.facts, (self.trace, ("ev", s)))
        r._k = self._k
        return r

    def fork(self, key, con, keep, label):
        """take a branch: con = ('=', val) or ('!', vals)"""
        r = St(self.mem, self.facts, (self.trace, (key, con, label)))
        if keep:
            f = dict(self.facts)
            f[key] = con
            r.facts = f
        else:
            r._k = self._k
        return r

    def test(self, key, val):
        f = self.facts.get(key)
        if f is None:
            return None
        if f[0] == "=":
            return f[1] == val
        return False if val in f[1] else None


def trace_list(t):
    out = []
    while t is not None:
        t, s = t
        out.append(s)
    return out[::-1]


def meet(a, b, dom):
    """conjunction of two constraints on one atom; None = contradiction"""
    if a[0] == "=":
        ok = a[1] == b[1] if b[0] == "=" else a[1] not in b[1]
        return a if ok else None
    if b[0] == "=":
        return b if b[1] not in a[1] else None
    s = a[1] | b[1]
    if dom:
        left = dom - s
        if not left:
            return None
        if len(left) == 1:
            return ("=", next(iter(left)))
    return ("!", s)


def contradictions(trace, doms):
    """atoms that a trace decides in two incompatible ways (the path is infeasible)"""
    known, bad, by = {}, set(), {}
    for e in trace_list(trace):
        if e[0] == "purge":
            for k in by.pop(e[1], ()):
                known.pop(k, None)
        elif e[0] == "ev":
            pass
        else:
            key, con, _ = e
            if key in known:
                m = meet(known[key], con, doms.get(key))
                if m is None:
                    bad.add(key)
                    m = con
                known[key] = m
            else:
                known[key] = con
                for f in frees(key):
                    by.setdefault(f, []).append(key)
    return bad


_FREES = {}


def frees(x):
    """the fresh unknowns a term is about"""
    h = _FREES.get(id(x))
    if h is None or h[0] is not x:
        out = set()
        todo = [x]
        while todo:
            y = todo.pop()
            if y[:1] == ("fresh",):
                out.add(y)
            todo += [z for z in y if isinstance(z, tuple)]
        h = _FREES[id(x)] = (x, frozenset(out))
    return h[1]


def show(trace, n=16):
    out = [e[1] if e[0] == "ev" else e[2] for e in trace_list(trace) if e[0] != "purge"]
    return out[-n:]


class Frame:
    __slots__ = ("fn", "depth", "chain", "stack")

    def __init__(self, fn, depth, chain, stack):
        self.fn, self.depth, self.chain, self.stack = fn, depth, chain, stack


def mentions(x, pred):
    if pred(x):
        return True
    if isinstance(x, tuple):
        return any(mentions(y, pred) for y in x if isinstance(y, tuple))
    return False


def has_str(v, s):
    return any(x == s or (isinstance(x, tuple) and has_str(x, s)) for x in v)


def argpath(v):
    while v[0] == "f":
        v = v[1]
    return v[0] == "a"


class Interp:
    MAX = 1500000
    tmax = 8            # pieces of a text kept apart

    def __init__(self, P, backend, roots, cfg):
        self.P, self.backend, self.roots, self.cfg = P, backend, roots, cfg
        self.origin, self.memo, self.nviol = {}, {}, 0
        self.impl = {}
        for i in P.impls:
            for tm, im in i["methods"]:
                if im in P.fns:
                    self.impl[(tm, strip_generics(i["self"]).split("<")[0])] = im
        self.ids = {}
        self.uses = {}
        self.keep = set()
        self.dom = {}
        self.cover, self.scope, self.widened = {}, {}, 0
        self.viol = {}
        self.panics = {}
        self.pushes = {}
        self.steps = 0
        self.fnseen = set()
        self.unknown = {}
        self.loops = {}
        self._live = {}
        self._inl = {}
        self._foot = {}
        self.modsets = {r: frozenset() for r in roots}
        self.root = None
        self.prof = {}
        self.dbg = None
        self.active = []
        self.cap = 20000
        self.pinned = frozenset()
        self.havoc, self.direct, self.deadline, self.reads = set(), {}, None, set()
        self.shallow = None
        self.assumed = set()
        self.pre = {}
        self.weaken = set()

    def sid(self, *k):
        n = self.ids.get(k)
        if n is None:
            import hashlib
            n = self.ids[k] = int.from_bytes(hashlib.md5(repr(k).encode()).digest()[:7], "big")
        return n

    # ---------- memory
    def load(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            return ("fresh", "undef")
        for p in path:
            v = self.getf(st, v, p)
        return v

    def getf(self, st, v, p):
        k = v[0]
        n = 0
        while k == "ref":
            v = self.load(st, v[1], v[2])
            k = v[0]
            n += 1
            if n > 9:
                raise Budget("ref loop")
        if isinstance(p, tuple):
            if p[0] == "@":
                if k == "adt":
                    if v[2] != p[1]:
                        raise Dead()
                    return v
                if k in ("T", "H"):
                    return v          # Cow<str>
                return ("as", v, p[1])
            if p[0] == "#":           # index
                if k == "arr" and isinstance(p[1], int):
                    if p[1] < len(v[1]):
                        return v[1][p[1]]
                    raise Dead()
                return ("f", v, "[%s]" % (p[1] if isinstance(p[1], int) else vrepr(p[1])))
        if k == "adt":
            if p in v[3]:
                return v[4][v[3].index(p)]
            return ("f", v, p)
        if k == "tup":
            if p.isdigit() and int(p) < len(v[1]):
                return v[1][int(p)]
        if k == "clo":
            q = p.lstrip("^")
            if q in v[2]:
                return v[3][v[2].index(q)]
        if k == "upd":
            for f, x in v[2]:
                if f == p:
                    return x
            return self.getf(st, v[1], p)
        if p == "pointer" or (k == "f" and v[2] == "pointer"):
            return v
        if k in ("T", "H"):
            return v
        return ("f", v, p)

    def setv(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        k = v[0]
        if isinstance(p, tuple) and p[0] == "@":
            return self.setv(st, v, path[1:], new)
        if k == "adt" and p in v[3]:
            i = v[3].index(p)
            vals = v[4][:i] + (self.setv(st, v[4][i], path[1:], new),) + v[4][i + 1:]
            return ("adt", v[1], v[2], v[3], vals)
        if k == "tup" and isinstance(p, str) and p.isdigit() and int(p) < len(v[1]):
            i = int(p)
            return ("tup", v[1][:i] + (self.setv(st, v[1][i], path[1:], new),) + v[1][i + 1:])
        if k == "arr" and isinstance(p, tuple) and isinstance(p[1], int) and p[1] < len(v[1]):
            i = p[1]
            return ("arr", v[1][:i] + (self.setv(st, v[1][i], path[1:], new),) + v[1][i + 1:])
        if k == "clo" and isinstance(p, str) and p.lstrip("^") in v[2]:
            i = v[2].index(p.lstrip("^"))
            return ("clo", v[1], v[2], v[3][:i] + (self.setv(st, v[3][i], path[1:], new),) + v[3][i + 1:])
        if isinstance(p, tuple) and p[0] == "#" and not isinstance(p[1], int) or k == "app" and v[1] == "mut":
            return v if k == "app" and v[1] == "mut" else ("app", "mut", (v,))   # unknown element
        sub = self.setv(st, self.getf(st, v, p), path[1:], new)
        if k == "upd":
            d = dict(v[2])
            d[p] = sub
            return ("upd", v[1], tuple(sorted(d.items(), key=lambda x: str(x[0]))))
        return ("upd", v, ((p, sub),))

    def store(self, st, root, path, new):
        st = st.copy()
        if not path:
            st.mem[root] = new
        else:
            st.mem[root] = self.setv(st, st.mem.get(root, ("fresh", "undef")), path, new)
        return st

    def place(self, st, fr, pl):
        """-> ('addr', root, path) or ('val', v)"""
        root, path, val = ("L", fr.depth, pl[0]), (), None
        for p in pl[1:]:
            if p == "*":
                v = val if val is not None else self.load(st, root, path)
                if v[0] == "ref":
                    root, path, val = v[1], v[2], None
                elif val is not None or v[0] not in ("adt", "upd", "T", "H", "stk", "set", "tup", "clo", "arr"):
                    val = v
                # else: a by-value stand-in for a reference; keep the address
                continue
            if p == "?":
                continue
            if p[0] == "f":
                e = p[1]
            elif p[0] == "d":
                e = ("@", p[1])
            elif p[0] == "i":
                iv = self.deep(st, self.load(st, ("L", fr.depth, p[1]), ()))
                e = ("#", iv[2] if iv[0] == "k" else iv)
            elif p[0] == "c":
                e = ("#", ("k", "n", "-%d" % p[1]) if p[2] else p[1])
            else:
                e = "sub"
            if val is not None:
                val = self.getf(st, val, e)
            else:
                if path or True:
                    v = self.load(st, root, path)
                    if v[0] == "ref":      # field through an implicit reference
                        root, path = v[1], v[2]
                path = path + (e,)
        if val is not None:
            return ("val", val)
        return ("addr", root, path)

    def rd(self, st, fr, pl):
        r = self.place(st, fr, pl)
        return r[1] if r[0] == "val" else self.load(st, r[1], r[2])

    def wr(self, st, fr, pl, v):
        r = self.place(st, fr, pl)
        if r[0] == "val":
            return st
        return self.store(st, r[1], r[2], v)

    def deep(self, st, v, d=0):
        """value with references to memory replaced by what they point at"""
        n = 0
        while v[0] == "ref":
            v = self.load(st, v[1], v[2])
            n += 1
            if n > 9:
                raise Budget("ref loop")
        if v[0] in ("adt", "tup", "arr") and d < 4:
            i = {"adt": 4, "tup": 1, "arr": 1}[v[0]]
            vals = tuple(self.deep(st, x, d + 1) for x in v[i])
            if vals != v[i]:
                v = v[:i] + (vals,) + v[i + 1:]
        return v

    def op(self, st, fr, o):
        k = o[0]
        if k in ("p", "m"):
            return self.rd(st, fr, o[1])
        if k == "k":
            return self.const(fr, o)
        if k == "fn":
            return ("fn",) + tuple(tuple(x) if isinstance(x, list) else x for x in o[1:])
        if k == "closure":
            return ("clo", o[1], (), ())
        if k == "promoted":
            return self.promoted(o[1])
        return ("fresh", "?")

    def const(self, fr, o):
        v, ty = o[2], fr.fn.types[o[1]]
        if v is None:
            if len(o) > 3:
                fn = self.P.fns.get(o[3])
                if fn is not None:
                    return self.promoted(o[3])
                return ("app", "const " + o[3], ())
            if ty == "()":
                return UNIT
            return ("app", "const " + ty, ())
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return ("k", "n", v)
        if isinstance(v, list):
            return ("k", "y", tuple(v))
        if ty == "char":
            return ("k", "c", v)
        if isinstance(v, str):
            if ty.lstrip("&'static ").startswith("str") or ty.endswith("str"):
                return ("k", "s", v)
            b = strip_generics(ty)
            a = self.P.adt_by_name.get(b.split("::")[-1])
            return ("adt", a[0]["path"] if a else b, v, (), ())
        return ("k", "u", v)

    def promoted(self, p):
        fn = self.P.fns.get(p)
        if fn is None:
            return ("app", "promoted " + p, ())
        c = self._inl.get(("prom", p))
        if c is None:
            fr = Frame(fn, 900, (), ())
            st = St({}, {})
            try:
                for s in fn.blocks[0]["s"]:
                    st = self.stmt(st, fr, s)
                b = 0
                t = fn.blocks[0]["t"]
                v = self.load(st, ("L", 900, 0), ())
                c = self.freeze(st, v) if t[0] == "return" else ("app", "promoted " + p, ())
            except (Dead, KeyError):
                c = ("app", "promoted " + p, ())
            self._inl[("prom", p)] = c
        return c

    def freeze(self, st, v, d=0):
        v = self.deep(st, v)
        return v

    # ---------- rvalues
    def rv(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.op(st, fr, rv[1])
        if k in ("ref", "raw"):
            r = self.place(st, fr, rv[1])
            if r[0] == "val":
                return r[1]
            v = self.load(st, r[1], r[2])
            if v[0] in ("ref",) :
                return v if not (rv[2] and v[0] != "ref") and not self.is_mut_slot(fr, rv, v) else ("ref", r[1], r[2])
            if v[0] in ("k", "app", "a", "f", "as", "fn", "fresh") and not (len(rv) > 2 and rv[2]) and r[1][0] == "L":
                return v
            return ("ref", r[1], r[2])
        if k == "cast":
            v = self.op(st, fr, rv[1])
            if rv[4] == "int" and v[0] not in ("k", "test", "not"):
                return ("cast", self.deep(st, v), fr.fn.types[rv[2]])
            return v
        if k == "bin":
            return self.bin(st, rv[1], self.deep(st, self.op(st, fr, rv[2])), self.deep(st, self.op(st, fr, rv[3])))
        if k == "un":
            v = self.deep(st, self.op(st, fr, rv[2]))
            if rv[1] == "Not":
                return self.neg(v)
            return ("app", "un" + str(rv[1]), (v,))
        if k == "discr":
            v = self.deep(st, self.rd(st, fr, rv[1]))
            d = self.discr(v, rv[2])
            if self.shallow is not None and fr.depth == 0 and argpath(v):
                self.shallow.add(d)
            return d
        if k == "agg":
            a = rv[1]
            ops = tuple(self.op(st, fr, o) for o in rv[2])
            if a[0] == "adt":
                return ("adt", a[1], a[2], tuple(a[3]), ops)
            if a[0] == "closure":
                return ("clo", a[1], tuple(a[2]), ops)
            if a[0] == "tuple":
                return ("tup", ops) if ops else UNIT
            if a[0] == "array":
                return ("arr", ops)
            return ("fresh", "agg")
        if k == "repeat":
            return ("app", "repeat", (self.deep(st, self.op(st, fr, rv[1])),))
        return ("fresh", "rv " + k)

    def is_mut_slot(self, fr, rv, v):
        """&mut of a local that itself holds a reference (needed for e.g. iterators): keep the slot address"""
        return bool(len(rv) > 2 and rv[2] and len(rv[1]) == 1)

    def discr(self, v, adt):
        if v[0] == "adt":
            for n, nm in self.P.variants(v[1]).items():
                if nm == v[2]:
                    return ("k", "n", n)
            return ("discr", v)
        if v[0] in ("T", "H"):
            return ("fresh", "cow")
        if v[0] == "app" and v[1] == "first":
            return self.neg(("test", lenkey(v[2][0]), 0))
        vs = self.P.variants(strip_generics(adt)) if isinstance(adt, str) else None
        if vs and adt.split("<")[0].endswith("CellContent") and self.header_row(v):
            # the parser stores header cells without a style
            vs = {n: nm for n, nm in vs.items() if nm == "Default"}
            self.assumed.add("cells of a table's header row have unstyled content (CellContent::Default)")
            if len(vs) == 1:
                return ("k", "n", next(iter(vs)))
        if vs and ("discr", v) not in self.dom:
            self.dom[("discr", v)] = set(vs) if len(vs) > 2 else {0, 1}
        return ("discr", v)

    def neg(self, v):
        if v == TRUE:
            return FALSE
        if v == FALSE:
            return TRUE
        if v[0] == "not":
            return v[1]
        return ("not", v)

    def bin(self, st, op, a, b):
        ovf = op.endswith("WithOverflow")
        if ovf:
            op = op[:-12]
        r = None
        if a[0] == "k" and b[0] == "k" and isinstance(a[2], int) and isinstance(b[2], int):
            x, y = a[2], b[2]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}.get(op)
            g = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
            if f:
                r = ("k", "n", f())
                if op == "Add" and r[2] > 64 and 1 <= y <= 2:
                    r = ("app", "sum", (("a", "count"),))
            elif g is not None:
                r = TRUE if g else FALSE
        if r is None and op in ("Add", "Sub") and b[0] == "k" and isinstance(b[2], int):
            d = b[2] if op == "Add" else -b[2]
            base, n = (a[1], a[2]) if a[0] == "aff" else (a, 0)
            n += d
            if base[0] == "app" and base[1] == "sum":
                n = 0
            r = base if n == 0 else ("aff", base, n) if abs(n) <= 4 or (base[0] == "app" and base[1] == "hlen") else ("app", "sum", (base,))
        if r is None and op in ("Eq", "Ne"):
            r = self.eq(a, b)
            if op == "Ne":
                r = self.neg(r)
        if r is None and op in ("BitAnd", "BitOr"):
            T = {"BitAnd": (FALSE, TRUE), "BitOr": (TRUE, FALSE)}[op]
            if T[0] in (a, b):
                r = T[0]
            elif a == T[1]:
                r = b
            elif b == T[1]:
                r = a
        if r is None and op in ("Lt", "Le", "Gt", "Ge"):
            # normalise to Lt
            if op == "Gt":
                r = ("app", "Lt", (b, a))
            elif op == "Le":
                r = self.neg(("app", "Lt", (b, a)))
            elif op == "Ge":
                r = self.neg(("app", "Lt", (a, b)))
            else:
                r = ("app", "Lt", (a, b))
        if r is None:
            r = ("app", op, (a, b))
        return ("tup", (r, FALSE)) if ovf else r

    def eq(self, a, b):
        a, b = self.simp(a), self.simp(b)
        if a == b and a[0] != "fresh":
            return TRUE
        if a[0] == "adt" and b[0] == "adt" and a[1].split("::")[-1] == b[1].split("::")[-1]:
            if a[2] != b[2]:
                return FALSE
            if not a[4]:
                return TRUE
            if len(a[4]) == 1:
                return self.eq(a[4][0], b[4][0])
        if a[0] == "k" and b[0] == "k":
            return TRUE if a[2] == b[2] else FALSE
        if a[0] in ("k", "adt") and b[0] not in ("k", "adt"):
            a, b = b, a
        if b[0] == "adt" and len(b[4]) == 1 and b[4][0][0] == "k" and a[0] == "app" and a[1] == "lastch":
            c = b[4][0][2]
            c = chr(c) if isinstance(c, int) else c
            known = Html.last(a[2][0])
            if known is not None and known != c:
                return FALSE
            return ("app", "hend", (a[2][0], ("k", "s", c)))
        if b[0] == "k":
            if a[0] in ("test", "not") or b in (TRUE, FALSE):
                return a if b[2] else self.neg(a)
            if a[0] == "discr":
                return ("test", a, b[2])
            if a[0] == "aff" and isinstance(b[2], int):
                return ("test", ("val", a[1]), b[2] - a[2])
            return ("test", ("val", a), b[2])
        if b[0] == "adt" and not b[4]:
            for n, nm in self.P.variants(b[1]).items():
                if nm == b[2]:
                    return ("test", ("discr", a), n)
        if repr(a) > repr(b):
            a, b = b, a
        return ("app", "eq", (a, b))

    def simp(self, v):
        if v[0] == "T":
            if not v[1]:
                return ("k", "s", "")
            if all(p[0] == "l" for p in v[1]):
                return ("k", "s", "".join(p[1] for p in v[1]))
            if len(v[1]) == 1:
                return v[1][0][1]
        return v

    # ---------- branching
    def site(self, fr, bi):
        return fr.chain + (self.sid("site", fr.fn.path, bi),)

    def use(self, key, site):
        """remember the innermost frame that covers every test of this atom"""
        c = site[:-1]
        o = self.cover.get(key)
        if o is None:
            self.cover[key] = c
        elif c[:len(o)] != o:
            n = 0
            while n < len(o) and n < len(c) and o[n] == c[n]:
                n += 1
            self.cover[key] = o[:n]
            self.widened += 1

    def con(self, key, val, pos):
        if pos:
            return ("=", val)
        d = self.dom.get(key)
        if d and len(d) == 2 and val in d:
            return ("=", next(iter(d - {val})))
        return ("!", frozenset([val]))

    def truth(self, st, v, site):
        """-> list of (bool, st)"""
        v = self.deep(st, v)
        if v[0] == "not":
            return [(not b, s) for b, s in self.truth(st, v[1], site)]
        if v[0] == "k":
            return [(bool(v[2]), st)]
        if v[0] == "test":
            key, val = v[1], v[2]
        else:
            key, val = ("b", v), 1
        if key[0] in ("b", "in"):
            self.dom[key] = {0, 1}
        r = st.test(key, val)
        self.use(key, site)
        if r is not None:
            return [(r, st)]
        out = []
        for b in (True, False):
            c = self.con(key, val, b)
            out.append((b, self.take(st, key, c, "%s%s%s" % (krepr(key), "=" if b else "!=", val))))
        if key[0] == "b" and key[1][0] == "app" and key[1][1] == "hend":
            out = [(b, self.ends_with(s, *key[1][2]) if b else s) for b, s in out]
        return out

    def ends_with(self, st, h, lit):
        """the output was found to end with this text"""
        p = (self.cfg["html"],)
        if self.load(st, ("B",), p) == h and h[4] is None:
            st = self.store(st, ("B",), p, h[:4] + (("s", lit[2]),))
        return st

    def take(self, st, key, c, label):
        keep = key in self.keep
        if keep and key in st.facts:
            c = meet(st.facts[key], c, self.dom.get(key)) or c
        return st.fork(key, c, keep, label)

    def switch(self, st, fr, bi, t):
        v = self.deep(st, self.op(st, fr, t[1]))
        site = self.site(fr, bi)
        ty = t[4] if isinstance(t[4], str) else (fr.fn.types[t[4]] if isinstance(t[4], int) else "")
        if v[0] in ("not", "test") or (ty == "bool" and v[0] != "k"):
            out = []
            for b, s in self.truth(st, v, site):
                tgt = next((x[1] for x in t[2] if x[0] == int(b)), t[3])
                out.append((tgt, s))
            return out
        if v[0] == "k":
            x = v[2]
            if isinstance(x, str) and len(x) == 1 and v[1] == "c":
                x = ord(x)
            for val, b in t[2]:
                if val == x:
                    return [(b, st)]
            return [(t[3], st)]
        off = 0
        if v[0] == "aff":
            v, off = v[1], v[2]
        key = v if v[0] == "discr" else ("val", v)
        out = []
        if off:
            t = list(t)
            t[2] = [[val - off, b] for val, b in t[2]]
        f = st.facts.get(key)
        self.use(key, site)
        if f and f[0] == "=":
            for val, b in t[2]:
                if val == f[1]:
                    return [(b, st)]
            return [(t[3], st)]
        dom = self.dom.get(key)
        for val, b in t[2]:
            if f and val in f[1]:
                continue
            if dom and val not in dom:
                continue
            out.append((b, self.take(st, key, ("=", val), "%s=%s" % (krepr(key), val))))
        ob = fr.fn.blocks[t[3]]
        rest = dom - {x[0] for x in t[2]} - (f[1] if f else frozenset()) if dom else None
        if not (ob["t"][0] == "unreachable" and not ob["s"]) and (rest is None or rest):
            if rest and len(rest) == 1:
                c = ("=", next(iter(rest)))
            else:
                c = ("!", (f[1] if f else frozenset()) | {x[0] for x in t[2]})
            out.append((t[3], self.take(st, key, c, "%s=other" % krepr(key))))
        return out

    # ---------- execution
    def live(self, fn):
        L = self._live.get(fn.path)
        if L is None:
            L = self._live[fn.path] = liveness(fn)
        return L

    def stmt(self, st, fr, s):
        pl, rv, ln = s
        if rv[0] == "dead":
            r = ("L", fr.depth, pl[0])
            if r in st.mem:
                st = st.copy()
                del st.mem[r]
            return st
        if rv[0] == "setdiscr":
            return st
        return self.wr(st, fr, pl, self.rv(st, fr, rv))

    def run(self, fn, args, st, chain=(), depth=0, stack=()):
        """run0, remembering results: a call cannot depend on or change locals of its callers that it has no reference to"""
        if depth == 0 or self.shallow is not None:
            return self.run0(fn, args, st, chain, depth, stack)
        mem = st.mem
        part = {r: v for r, v in mem.items() if r[0] != "L"}
        todo = [args] + list(part.values())
        while todo:
            x = todo.pop()
            if len(x) > 1 and x[0] == "ref" and isinstance(x[1], tuple):
                r = x[1]
                if r not in part and r in mem:
                    part[r] = mem[r]
                    todo.append(mem[r])
            for y in x:
                if isinstance(y, tuple) and y:
                    todo.append(y)
        key = (fn.path, chain, depth, tuple(args), frozenset(part.items()), frozenset(st.facts.items()))
        hit = self.memo.get(key)
        if hit is None:
            n0 = self.nviol
            res = self.run0(fn, args, St(part, st.facts, st.trace), chain, depth, stack)
            hit = []
            for v, s in res:
                ev, t = [], s.trace
                while t is not st.trace:
                    t, e = t
                    ev.append(e)
                hit.append((v, {r: x for r, x in s.mem.items()}, s.facts, ev[::-1]))
            if self.nviol == n0:
                self.memo[key] = hit
        out = []
        for v, m, f, ev in hit:
            n = dict(mem)
            n.update(m)
            t = st.trace
            for e in ev:
                t = (t, e)
            out.append((v, St(n, f, t)))
        return out

    def run0(self, fn, args, st, chain=(), depth=0, stack=()):
        """-> list of (ret, st)"""
        self.fnseen.add(fn.path)
        if depth > 60:
            raise Budget("inlining depth at " + fn.short)
        fr = Frame(fn, depth, chain, stack + (fn.path,))
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", depth, i + 1)] = a
        live, addr = self.live(fn)
        seen = set()
        work = [(0, st)]
        self.active.append(work)
        out, outseen = [], set()
        while work:
            bi, st = work.pop()
            st = self.prune(fr, st, live[bi], addr)
            k = (bi, st.key())
            if k in seen:
                continue
            seen.add(k)
            self.steps += 1
            self.prof[fn.short] = self.prof.get(fn.short, 0) + 1
            if self.deadline and self.steps % 500 == 0 and time.time() > self.deadline:
                raise Budget("time is up")
            if self.dbg is not None:
                self.dbg.setdefault((fr.stack, bi), []).append(st)
            if self.steps > self.cap:
                raise Cap(st.trace)
            if self.steps > self.MAX:
                raise Budget("%d steps in %s (at %s): %s" % (self.steps, self.root, fn.short, sorted(
                    self.prof.items(), key=lambda x: -x[1])[:12]))
            try:
                b = fn.blocks[bi]
                for s in b["s"]:
                    st = self.stmt(st, fr, s)
                t = b["t"]
                k = t[0]
                if k == "goto":
                    nxt = [(t[1], st)]
                elif k == "switch":
                    nxt = self.switch(st, fr, bi, t)
                elif k == "drop":
                    nxt = [(t[2], st)]
                elif k == "assert":
                    nxt = [(t[4], st)]
                elif k == "call":
                    nxt = []
                    for rvv, s in self.call(st, fr, bi, t):
                        if t[4] is None:
                            continue
                        nxt.append((t[4], self.wr(s, fr, t[3], rvv)))
                elif k == "return":
                    v = st.mem.get(("L", depth, 0), UNIT)
                    s = self.leave(fr, st)
                    kk = (v, s.key())
                    if kk not in outseen:
                        outseen.add(kk)
                        out.append((v, s))
                    nxt = []
                else:
                    nxt = []
                work += nxt
            except Dead:
                pass
            except Viol as e:
                self.violate(fr, bi, st, e.kind, e.detail)
        self.active.pop()
        return out

    def leave(self, fr, st):
        m = {r: v for r, v in st.mem.items() if not (r[0] == "L" and r[1] == fr.depth)}
        f = st.facts
        if f and fr.depth > 0:
            n, c, sc = len(fr.chain), fr.chain, self.scope
            g = {k: v for k, v in f.items() if k in self.pinned or not (len(sc.get(k, ())) >= n and sc.get(k, ())[:n] == c)}
            if len(g) != len(f):
                f = g
        return St(m, f, st.trace)

    def prune(self, fr, st, live, addr):
        dead = [r for r in st.mem if r[0] == "L" and r[1] == fr.depth and r[2] not in live and r[2] not in addr]
        if dead:
            st = st.copy()
            for r in dead:
                del st.mem[r]
        return st

    def violate(self, fr, bi, st, kind, detail):
        self.nviol += 1
        t = fr.fn.blocks[bi]["t"]
        line = t[5] if t[0] in ("call", "switch") and isinstance(t[5], int) else 0
        key = (kind, fr.fn.path, detail, self.root)
        old = self.viol.get(key)
        if old is None or (contradictions(old[2], self.dom) and not contradictions(st.trace, self.dom)):
            self.viol[key] = (fr.fn, line, st.trace, [short(x) for x in fr.stack])

    def header_row(self, v):
        """v is a part of a table's header row (origin: elements of which sequence a fresh symbol stands for)"""
        if not isinstance(v, tuple):
            return v == "header_row"
        if v[:1] == ("fresh",):
            return v in self.origin and self.origin[v][0]
        return any(self.header_row(x) for x in v)

    def fresh(self, st, site, tag=""):
        """a new unknown; forget what was known about the previous value made at the same place"""
        v = ("fresh", self.sid("fr", site, tag))
        f = st.facts
        bad = [k for k in f if v in frees(k)]
        if bad:
            f = dict(f)
            for k in bad:
                del f[k]
        return v, St(st.mem, f, (st.trace, ("purge", v)))

    # ---------- calls
    def objtype(self, st, v):
        """adt path of the receiver, if it is tracked"""
        if v[0] == "ref":
            if v[1][0] == "B" and not v[2]:
                return self.backend
            v = self.load(st, v[1], v[2])
        if v[0] == "ref":
            return self.objtype(st, v)
        if v[0] == "adt":
            return v[1]
        if v[0] == "upd":
            return self.objtype(st, v[1]) if v[1][0] != "a" or v[1][1] != "self" else self.backend
        if v == ("a", "self"):
            return self.backend
        return None

    def resolve(self, st, f, args):
        P = self.P
        if f[2] and f[2] in P.fns:
            return f[2]
        if f[1] in P.dispatch or any(k[0] == f[1] for k in ()):
            ty = self.objtype(st, args[0]) if args else None
            if ty:
                im = self.impl.get((f[1], ty))
                if im:
                    return im
                return f[1] if f[1] in P.fns else None
            # by static self type
            if f[3]:
                nm = strip_generics(f[3]).split("::")[-1]
                c = [im for (tm, sty), im in self.impl.items() if tm == f[1] and sty.split("::")[-1] == nm]
                if len(c) == 1:
                    return c[0]
                if nm == self.backend.split("::")[-1] or nm in ("impl Backend", "B", "Self"):
                    im = self.impl.get((f[1], self.backend))
                    if im:
                        return im
            return None
        if f[1] in P.fns:
            if args and "::" in f[1]:
                ty = self.objtype(st, args[0])
                im = self.impl.get((f[1], ty)) if ty else None
                if im:
                    return im
            return f[1]
        return None

    def call(self, st, fr, bi, t):
        f = t[1]
        args = [self.op(st, fr, a) for a in t[2]]
        site = self.site(fr, bi)
        if f[0] != "fn":
            fv = self.op(st, fr, f)
            return self.callv(st, fr, bi, fv, args, site)
        if t[4] is None:
            self.panic(st, fr, bi, t)
            return []
        return self.callfn(st, fr, bi, f, args, site, t)

    def panic(self, st, fr, bi, t):
        self.nviol += 1
        key = (fr.fn.path, t[5], self.root)
        old = self.panics.get(key)
        if old is None or (contradictions(old[1], self.dom) and not contradictions(st.trace, self.dom)):
            self.panics[key] = (fr.fn, st.trace, [short(x) for x in fr.stack])

    def callv(self, st, fr, bi, fv, args, site):
        n = 0
        while fv[0] == "ref" and n < 5:
            fv = self.load(st, fv[1], fv[2])
            n += 1
        if fv[0] == "clo":
            fn = self.P.fns[fv[1]]
            return self.run(fn, [fv] + list(args), st, site, fr.depth + 1, fr.stack)
        if fv[0] == "fn":
            return self.callfn(st, fr, bi, list(fv), list(args), site, None)
        v, st = self.fresh(st, site)
        return [(v, st)]

    def callfn(self, st, fr, bi, f, args, site, t):
        if self.shallow is not None:
            v, st = self.fresh(st, site)
            return [(v, st)]
        r = self.resolve(st, f, args)
        sh, tn = short(f[2] or f[1]), short(f[1])
        if r is not None:
            fn = self.P.fns[r]
            h = SUMMARY.get(fn.short)
            if h:
                return h(self, st, fr, bi, args, site, fn)
            if r in self.roots:
                return self.contract(st, fr, bi, r, args, site)
            if fn.crate in INLINE or self.small(fn):
                if r in fr.stack:
                    raise Budget("recursion through " + fn.short)
                s = st
                if fn.crate in INLINE and "Backend>::" in fn.path and fr.fn.crate == "asciidork_eval":
                    s = st.ev(fn.name)
                return self.run(fn, args, s, site, fr.depth + 1, fr.stack)
            return self.opaque(st, fr, fn, tn if tn else fn.short, args, site)
        h = (BUILTIN.get(f[1]) if f[1].startswith(("[", "str::")) else None) or BUILTIN.get(tn) or BUILTIN.get(sh) or BUILTIN.get("*::" + sh.split("::")[-1])
        if h:
            self.cur = f
            return h(self, st, fr, bi, args, site, t)
        self.unknown[sh] = self.unknown.get(sh, 0) + 1
        return self.opaque(st, fr, None, tn, args, site)

    def small(self, fn):
        r = self._inl.get(fn.path)
        if r is None:
            r = fn.crate in SMALL and len(fn.blocks) <= 12 and not has_loop(fn) and not any(
                rv[0] == "agg" and rv[1][0] == "closure" for b in fn.blocks for pl, rv, ln in b["s"]) and \
                fn.path not in self.P.reach([x[0] for x in self.P.callgraph()[fn.path]])
            self._inl[fn.path] = r
        return r

    def opaque(self, st, fr, fn, name, args, site):
        """a call that only computes from document data (and may change what it borrows mutably)"""
        vals = []
        muts = []
        for i, a in enumerate(args):
            ty = fn.ty(i + 1) if fn is not None and i < fn.argc else ""
            if a[0] == "ref" and ty.startswith("&mut"):
                muts.append((i, a))
            vals.append(self.deep(st, a))
        if fn is not None:
            for i, a in enumerate(args):
                if a[0] == "ref":
                    R, W = self.foot(fn, i + 1)
                    v = vals[i]
                    if R is not None and len(R) <= 6 and v[0] in ("upd", "f", "a", "fresh"):
                        vals[i] = ("tup", tuple(self.getf(st, v, x) for x in sorted(R)))
        v = ("app", name, tuple(vals))
        for i, a in muts:
            R, W = self.foot(fn, i + 1)
            cur = self.load(st, a[1], a[2])
            if W is None:
                nv, st = self.fresh(st, site, i)
                st = self.store(st, a[1], a[2], nv)
            else:
                for x in sorted(W):
                    nv, st = self.fresh(st, site, (i, x))
                    st = self.store(st, a[1], a[2] + (x,), nv)
        if muts:
            v, st = self.fresh(st, site, "ret")
        return [(v, st)]

    def foot(self, fn, i, stack=()):
        """first-level fields of argument i read / written (None = everything)"""
        key = (fn.path, i)
        if key in self._foot:
            return self._foot[key]
        if key in stack:
            return set(), set()
        R, W = set(), set()
        alias = {i}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                for pl, rv, ln in b["s"]:
                    if len(pl) == 1 and pl[0] not in alias:
                        if (rv[0] == "use" and rv[1][0] in ("p", "m") and rv[1][1][0] in alias and rv[1][1][1:] in ([], ["*"])) or \
                           (rv[0] == "ref" and rv[1][0] in alias and rv[1][1:] in ([], ["*"])):
                            alias.add(pl[0])
                            ch = True

        def fld(pl):
            if pl[0] not in alias:
                return None
            rest = [p for p in pl[1:] if p != "*"]
            if not rest:
                return "*"
            return rest[0][1] if rest[0][0] == "f" else "*"
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if rv[0] == "dead":
                    continue
                x = fld(pl)
                if x and len(pl) > 1:
                    W.add(x)
                pls = []
                if rv[0] in ("ref", "raw"):
                    y = fld(rv[1])
                    if y and y != "*":
                        R.add(y)
                        if rv[2]:
                            W.add(y)
                elif rv[0] == "discr":
                    y = fld(rv[1])
                    if y:
                        R.add(y)
                else:
                    from mir import rv_ops
                    for o in rv_ops(rv):
                        if o[0] in ("p", "m"):
                            y = fld(o[1])
                            if y and y != "*":
                                R.add(y)
                            elif y == "*" and not (len(pl) == 1 and pl[0] in alias):
                                R.add("*")
            t = b["t"]
            if t[0] == "call":
                for j, o in enumerate(t[2]):
                    if o[0] in ("p", "m"):
                        y = fld(o[1])
                        if y == "*":
                            cs = self.P.callees(t[1]) if t[1][0] == "fn" else []
                            if not cs:
                                R.add("*")
                                if fn.ty(o[1][0]).startswith("&mut"):
                                    W.add("*")
                            for c in cs:
                                g = self.P.fns.get(c)
                                if g is None or j >= g.argc:
                                    R.add("*")
                                    continue
                                r2, w2 = self.foot(g, j + 1, stack + (key,))
                                R |= {"*"} if r2 is None else r2
                                W |= {"*"} if w2 is None else w2
                        elif y:
                            R.add(y)
        res = (None if "*" in R else R, None if "*" in W else W)
        self._foot[key] = res
        return res

    # ---------- recursion contract
    def contract(self, st, fr, bi, r, args, site):
        fn = self.P.fns[r]
        obj = None
        for i, a in enumerate(args):
            if a[0] == "ref" and fn.ty(i + 1).startswith("&mut"):
                obj = a
        st = st.ev("<%s>" % fn.short)
        if obj is None:
            return [(UNIT, st)]
        if obj[1][0] != "B":
            v = self.load(st, obj[1], obj[2])
            if v[0] == "ref":
                obj = v
        if obj[1][0] != "B" or obj[2]:
            self.require(st, r, obj[1], obj[2])
            for f in self.cfg["fields"]:
                if f == self.cfg["html"]:
                    nv = ("T", (("d", ("a", "nested document")),))
                elif f == self.cfg["alt"]:
                    nv = EMPTY
                else:
                    nv, st = self.fresh(st, site, f)
                st = self.store(st, obj[1], obj[2] + (f,), nv)
            return [(UNIT, st)]
        hp, ap = (self.cfg["html"],), (self.cfg["alt"],)
        h = self.load(st, ("B",), hp)
        a = self.load(st, ("B",), ap)
        if h[0] == "H":
            if h[3][0] != "data":
                raise Viol("context", "%s is rendered inside a tag (lexer state %s)" % (fn.short, h[3]))
            h = h[:4] + (None,)
        elif h[0] == "T":
            if any(x[0] == "l" and "<" in x[1] for x in h[1]):
                raise Viol("context", "%s is rendered after %s" % (fn.short, "".join(x[1] for x in h[1] if x[0] == "l")))
            if not mentions(h, lambda x: x == ("d", ("a", "content"))):
                h = ("T", h[1] + (("d", ("a", "content")),))
        else:
            h = ("T", (("d", ("a", "content")),))
        st = self.store(st, ("B",), hp, h)
        if r in self.cfg["alt_empty"]:
            e = self.is_empty(a)
            if e is not True:
                raise Viol("buffer", "%s is rendered while the secondary buffer holds %s" % (
                    fn.short, "output" if e is False else "a block title or other pending text"))
        self.require(st, r, ("B",), ())
        for m in self.modsets[r]:
            path, elem = m
            cur = self.load(st, ("B",), path)
            nv, st = self.fresh(st, site, m)
            self.havoc.add(nv)
            if elem is not None:
                if cur[0] == "set":
                    d = dict(cur[2])
                    d[elem] = nv
                    st = self.store(st, ("B",), path, ("set", cur[1], tuple(sorted(d.items(), key=str))))
            else:
                if cur[0] == "stk":
                    nv = ("stk", nv, ())
                st = self.store(st, ("B",), path, nv)
        return [(UNIT, st)]

    def require(self, st, r, root, path):
        """flags assumed to be clear when r begins must be clear at every call of it"""
        for p, elem in self.pre.get(r, ()):
            v = self.load(st, root, path + p)
            if elem is None:
                ok = v == FALSE or v[0] == "k" and v[2] in ("default",)
            elif v[0] == "k" and v[2] in ("default", "empty"):
                ok = True
            elif v[0] != "set":
                ok = False
            else:
                d = dict(v[2])
                ok = d[elem] is False if elem in d else v[1] == ("k", "u", "empty") or st.test(("in", v[1], elem), 1) is False
            if not ok:
                self.weaken.add((r, (p, elem)))

    def widen(self, a, b):
        """counters that changed in a loop iteration become `some other number` at once"""
        x, y = a.mem.get(("B",)), b.mem.get(("B",))
        if x is None or y is None or x == y:
            return b
        for path, v in list(leaves(y)):
            if v[0] == "aff":
                o = x
                for p in path:
                    o = self.getf(a, o, p)
                if o != v:
                    b = self.store(b, ("B",), path, ("app", "sum", (v[1],)))
            elif v[0] == "k" and isinstance(v[2], int) and not isinstance(v[2], bool):
                o = x
                for p in path:
                    o = self.getf(a, o, p)
                if o != v and (o[0] == "app" or o[0] == "k"):
                    b = self.store(b, ("B",), path, ("app", "sum", (("a", "count"),)))
        return b

    def loop_diff(self, a, b):
        """every iteration must leave the open elements as it found them"""
        x, y = self.load(a, ("B",), (self.cfg["html"],)), self.load(b, ("B",), (self.cfg["html"],))
        p, q = [z[2] if z[0] == "H" else () for z in (x, y)]
        if p != q:
            n = 0
            while n < len(p) and n < len(q) and p[n] == q[n]:
                n += 1
            if len(q) > n:
                return "an iteration leaves open: %s" % ", ".join("<%s>" % z for z in q[n:])
            return "an iteration closes: %s" % ", ".join("<%s>" % z for z in p[n:])
        return None

    def is_empty(self, v):
        if v[0] == "T":
            if not v[1]:
                return True
            if any(p[0] == "l" and p[1] for p in v[1]):
                return False
            return None
        if v[0] == "H":
            return False if v[1] == "E" or v[2] or v[4] is not None or v[3] != ("data",) else None
        return None

    # ---------- strings
    def pieces(self, st, v):
        v = self.deep(st, v)
        if v[0] == "k":
            if v[2] is None:
                return (("d", v),)
            return (("l", str(v[2])),)
        if v[0] == "T":
            return v[1]
        if v[0] == "H":
            return (("h", v),)
        if v[0] == "fmt":
            return v[1]
        return (("d", v),)

    def append(self, h, pieces):
        if h[0] not in ("T", "H"):
            h = ("T", (("d", h),))
        for p in pieces:
            if p[0] == "l" and not p[1]:
                continue
            if h[0] == "T":
                ps = h[1]
                if p[0] == "l" and ps and ps[-1][0] == "l":
                    ps = ps[:-1] + (("l", ps[-1][1] + p[1]),)
                else:
                    ps = ps + (p,)
                if not any(x[0] == "h" or x[0] == "l" and "<" in x[1] for x in ps):
                    if len(ps) > self.tmax:
                        ps = (("d", ("a", "text")),)
                    h = ("T", ps)
                    continue
                # a fragment is complete once it is well-formed by itself; until then (it may close
                # elements opened before it) keep its pieces
                base = ("H", "E", (), ("data",), None)
                try:
                    n = self.append(base, ps)
                except Viol:
                    if len(ps) > self.tmax + 4 or not (h[1] or p[0] == "l"):
                        raise
                    n = None
                if n is not None and (n[3][0] == "data" or not any(x[0] == "l" and ("</" in x[1] or x[1][-1:] == "<")
                                                                   for x in ps)) or len(ps) > self.tmax + 4:
                    h = n
                else:
                    h = ("T", ps)
                continue
            if p[0] == "l":
                h = Html.lit(h, p[1])
            elif p[0] == "d":
                self.note_push(h, p[1])
                h = Html.dyn(h, p[1])
            else:
                f = p[1]
                if h[3][0] != "data":
                    raise Viol("lex", "markup pushed inside a tag (%s)" % (h[3],))
                h = ("H", h[1], h[2] + f[2], f[3], f[4])
        return h

    def note_push(self, h, v):
        pass

    def push(self, st, dst, src):
        """dst: ref value to a String"""
        v = self.load(st, dst[1], dst[2])
        n = 0
        while v[0] == "ref" and n < 9:
            dst = v
            v = self.load(st, dst[1], dst[2])
            n += 1
        return self.store(st, dst[1], dst[2], self.append(v, self.pieces(st, src)))

    def target(self, st, dst):
        """address of a mutable receiver"""
        n = 0
        while dst[0] == "ref" and n < 9:
            v = self.load(st, dst[1], dst[2])
            if v[0] != "ref":
                return dst
            dst = v
            n += 1
        return None


# ------------------------------------------------------------------ liveness
def has_loop(fn):
    color = {}

    def go(b):
        color[b] = 1
        for s in fn.succs(b):
            c = color.get(s)
            if c == 1 or (c is None and go(s)):
                return True
        color[b] = 2
        return False
    return go(0)


def liveness(fn):
    n = len(fn.blocks)
    addr = set()
    use, de = [set() for _ in range(n)], [set() for _ in range(n)]

    def ops(o, out):
        if o[0] in ("p", "m"):
            pls(o[1], out)

    def pls(pl, out):
        out.append(pl[0])
        for p in pl[1:]:
            if p != "*" and p[0] == "i":
                out.append(p[1])
    from mir import rv_ops
    for bi, b in enumerate(fn.blocks):
        U, D = use[bi], de[bi]
        for pl, rv, ln in b["s"]:
            if rv[0] == "dead":
                D.add(pl[0])
                continue
            out = []
            if rv[0] in ("ref", "raw"):
                pls(rv[1], out)
                if "*" not in rv[1][1:]:
                    addr.add(rv[1][0])
            elif rv[0] == "discr":
                pls(rv[1], out)
            else:
                for o in rv_ops(rv):
                    ops(o, out)
            if len(pl) > 1:
                pls(pl, out)
            for x in out:
                if x not in D:
                    U.add(x)
            if len(pl) == 1:
                D.add(pl[0])
        t = b["t"]
        out = []
        if t[0] == "call":
            for o in t[2]:
                ops(o, out)
            if t[1][0] in ("p", "m"):
                ops(t[1], out)
            if len(t[3]) > 1:
                pls(t[3], out)
        elif t[0] == "switch":
            ops(t[1], out)
        elif t[0] == "return":
            out.append(0)
        for x in out:
            if x not in D:
                U.add(x)
        if t[0] == "call" and len(t[3]) == 1:
            D.add(t[3][0])
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for bi in range(n - 1, -1, -1):
            o = set()
            for s in fn.succs(bi):
                o |= live[s]
            x = use[bi] | (o - de[bi])
            if x != live[bi]:
                live[bi] = x
                ch = True
    return live, addr


# ------------------------------------------------------------------ builtins
BUILTIN, SUMMARY = {}, {}


def bi(*names):
    def deco(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return deco


@bi("Deref::deref", "DerefMut::deref_mut", "Clone::clone", "AsRef::as_ref", "Borrow::borrow", "Into::into", "From::from",
    "IntoIterator::into_iter", "String::as_str", "Vec::as_slice", "Option::as_ref", "Option::as_mut",
    "Option::as_deref", "Option::as_deref_mut", "Option::cloned", "Option::copied", "must_use", "RefCell::borrow",
    "RefCell::borrow_mut", "ToOwned::to_owned", "ToString::to_string", "str::as_bytes", "String::as_bytes", "Box::new",
    "Rc::new", "Iterator::by_ref", "str::trim", "Rc::clone", "RefCell::new", "Cow::as_ref", "Iterator::copied",
    "Iterator::cloned", "Iterator::peekable", "Iterator::into_iter", "Result::ok_", "AsMut::as_mut", "black_box",
    "Argument::new_display", "Argument::new_debug", "str::to_string", "str::to_owned", "Cow::into_owned", "AsRef::as_ref")
def b_id(I, st, fr, bi_, args, site, t):
    tn = short(t[1][1]) if t else ""
    v = args[0]
    if tn in ("Clone::clone", "ToString::to_string", "ToOwned::to_owned", "From::from", "Into::into", "Argument::new_display",
              "Argument::new_debug"):
        v = I.deep(st, v)
        if tn in ("Clone::clone",) and v[0] == "stk":
            pass
        if v[0] == "k" and v[1] in ("s", "c") and tn in ("ToString::to_string", "From::from", "Into::into", "ToOwned::to_owned"):
            v = ("T", (("l", v[2]),) if v[2] else ())
        elif v[0] == "k" and tn in ("From::from", "Into::into") and isinstance(v[2], int) and t[1][3] == "char":
            v = ("k", "c", chr(v[2]))
    return [(v, st)]


@bi("*::saturating_add", "*::saturating_sub", "*::wrapping_add", "*::wrapping_sub")
def b_sat(I, st, fr, bi_, args, site, t):
    """counters are taken as unbounded: adding never saturates, subtracting undoes an addition made before"""
    name = (t[1][2] or t[1][1]).split("::")[-1] if t else "?"
    a, b = I.simp(args[0]), I.simp(args[1])
    isint = lambda v: v[0] == "k" and isinstance(v[2], int)
    if name.endswith("_add"):
        if isint(a) and not isint(b):
            a, b = b, a
        return [(I.bin(st, "Add", a, b), st)]
    if isint(a) and isint(b):
        return [(("k", "n", max(0, a[2] - b[2])), st)]
    if isint(b) and a[0] == "aff" and a[2] >= b[2] or name == "wrapping_sub":
        return [(I.bin(st, "Sub", a, b), st)]
    return [(("app", "satsub", (a, b)), st)]


@bi("[T]::iter", "[T]::iter_mut", "str::chars", "Vec::iter", "HashSet::iter", "Vec::drain")
def b_iter(I, st, fr, b, args, site, t):
    v = I.deep(st, args[0])
    if v[0] == "arr":
        return [(("it", "k", v[1]), st)]
    return [(("it", "o", v, 0), st)]


def it_src(it):
    """(source value, started?) of an iterator that yields every element of an opaque sequence"""
    while it[0] == "it" and it[1] in ("enum", "map"):
        it = it[2]
    if it[0] == "it" and it[1] == "o" and len(it) > 3:
        return it[2], it[3]
    return None, 0


def it_started(it):
    if it[0] == "it" and it[1] in ("enum", "map"):
        return it[:2] + (it_started(it[2]),) + it[3:]
    if it[0] == "it" and it[1] == "o" and len(it) > 3:
        return it[:3] + (1,)
    return it


def lenkey(v):
    return ("val", ("app", "len", (v,)))


@bi("Iterator::enumerate")
def b_enum(I, st, fr, b, args, site, t):
    v = args[0]
    if v[0] == "arr":
        v = ("it", "k", v[1])
    if v[0] == "it" and v[1] == "k":
        return [(("it", "k", tuple(("tup", (("k", "n", i), x)) for i, x in enumerate(v[2]))), st)]
    return [(("it", "enum", v), st)]


@bi("Iterator::map")
def b_imap(I, st, fr, b, args, site, t):
    return [(("it", "map", args[0], args[1]), st)]


@bi("Iterator::filter", "Iterator::skip", "Iterator::take", "Iterator::rev", "str::split", "str::splitn", "Iterator::flat_map",
    "Iterator::filter_map", "Iterator::zip", "Iterator::chain", "str::lines", "Iterator::skip_while", "Iterator::take_while",
    "str::char_indices", "Iterator::flatten", "str::split_whitespace")
def b_iopq(I, st, fr, b, args, site, t):
    for a in args:
        if a[0] == "clo" and mentions(a, lambda x: x[:1] == ("ref",) and x[1][0] == "B"):
            raise Budget("iterator adaptor closure uses the backend")
    return [(("it", "o", ("app", short(t[1][1]), tuple(I.deep(st, a) for a in args))), st)]


def elem(I, st, it, site, fr, b):
    """-> list of (elem, st) for one further element"""
    if it[0] == "it" and it[1] == "enum":
        out = []
        for e, s in elem(I, st, it[2], site, fr, b):
            n, s = I.fresh(s, site, "n")
            out.append((("tup", (n, e)), s))
        return out
    if it[0] == "it" and it[1] == "map":
        out = []
        for e, s in elem(I, st, it[2], site, fr, b):
            out += I.callv(s, fr, b, it[3], [e], site)
        return out
    e, st = I.fresh(st, site, "el")
    o = I.origin.setdefault(e, [True])
    o[0] = o[0] and I.header_row(it)
    return [(e, st)]


@bi("Iterator::next", "Iterator::next_back", "Iterator::last", "DoubleEndedIterator::next_back")
def b_next(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    it = I.load(st, dst[1], dst[2]) if dst else args[0]
    if it[0] == "arr":
        it = ("it", "k", it[1])
    if it[0] == "it" and it[1] == "k" and dst:
        if not it[2]:
            return [(NONE, st)]
        return [(some(it[2][0]), I.store(st, dst[1], dst[2], ("it", "k", it[2][1:])))]
    if it[0] == "it":
        src, started = it_src(it)
        if src is not None and not started and dst is not None:
            out = []
            for empty, s in I.truth(st, ("test", lenkey(src), 0), site):
                if empty:
                    out.append((NONE, s))
                else:
                    s = I.store(s, dst[1], dst[2], it_started(it))
                    out += [(some(e), s2) for e, s2 in elem(I, s, it, site, fr, b)]
            return out
        return [(NONE, st)] + [(some(e), s) for e, s in elem(I, st, it, site, fr, b)]
    # iterator returned by an opaque call
    return [(NONE, st)] + [(some(e), s) for e, s in elem(I, st, ("it", "o", it), site, fr, b)]


@bi("Iterator::for_each")
def b_foreach(I, st, fr, b, args, site, t):
    it = args[0]
    if it[0] == "ref":
        it = I.deep(st, it)
    if it[0] == "it" and it[1] == "k":
        cur = [st]
        for x in it[2]:
            nxt = []
            for s in cur:
                nxt += [s2 for _, s2 in I.callv(s, fr, b, args[1], [x], site)]
            cur = dedupe(nxt)
        return [(UNIT, s) for s in cur]
    seen, work, out = set(), [], []
    n = 0
    src, started = it_src(it)
    if src is None and it[0] != "it":
        src = it
    if src is not None and not started:
        for empty, s in I.truth(st, ("test", lenkey(src), 0), site):
            if empty:
                out.append(s)
            else:
                work.append(s)
    else:
        out.append(st)
        work.append(st)
    first = len(work)
    while work:
        s = work.pop()
        k = s.key()
        if k in seen:
            continue
        seen.add(k)
        if n >= first:
            out.append(s)
        n += 1
        if n > 400:
            a, c = out[-1].mem, out[-2].mem
            raise Budget("loop state does not settle in %s: %s" % (fr.fn.short, [
                (k, a.get(k), c.get(k)) for k in set(a) | set(c) if a.get(k) != c.get(k)]))
        for e, s1 in elem(I, s, it, site, fr, b):
            for _, s2 in I.callv(s1, fr, b, args[1], [e], site):
                s2 = I.widen(st, s2)
                d = I.loop_diff(st, s2)
                if d:
                    I.violate(fr, b, s2, "loop", d)
                    continue
                work.append(s2)
    return [(UNIT, s) for s in out]


def dedupe(sts):
    seen, out = set(), []
    for s in sts:
        if s.key() not in seen:
            seen.add(s.key())
            out.append(s)
    return out


# --- strings
@bi("String::new", "String::with_capacity", "<String as Default>::default")
def b_snew(I, st, fr, b, args, site, t):
    return [(EMPTY, st)]


@bi("String::push_str", "String::push", "Write::write_str", "Extend::extend")
def b_push(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is None:
        return [(UNIT, st)]
    return [(UNIT, I.push(st, dst, args[1]))]


@bi("Write::write_fmt")
def b_wfmt(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is not None:
        st = I.push(st, dst, args[1])
    return [(("adt", "core::result::Result", "Ok", ("0",), (UNIT,)), st)]


@bi("String::pop")
def b_pop(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is not None:
        v = I.load(st, dst[1], dst[2])
        if v[0] == "H":
            st = I.store(st, dst[1], dst[2], Html.pop(v))
        elif v[0] == "T" and v[1] and v[1][-1][0] == "l":
            x = v[1][-1][1][:-1]
            st = I.store(st, dst[1], dst[2], ("T", v[1][:-1] + ((("l", x),) if x else ())))
        elif v[0] == "T" and not v[1]:
            return [(NONE, st)]
        else:
            raise Viol("pop", "removes the last character of unknown output")
    n, st = I.fresh(st, site)
    return [(n, st)]


@bi("String::clear")
def b_clear(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is not None:
        st = I.store(st, dst[1], dst[2], EMPTY)
    return [(UNIT, st)]


@bi("String::truncate", "String::insert_str", "String::insert", "String::drain", "String::remove", "String::retain",
    "String::replace_range", "String::split_off")
def b_trunc(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is not None:
        v = I.load(st, dst[1], dst[2])
        n = I.deep(st, args[1]) if len(args) > 1 else ("k", "u", "")
        if v[0] == "H" and t[1][1].endswith("truncate") and n[0] == "aff" and n[1][:2] == ("app", "hlen") \
                and n[1][2][0][:4] == v[:4]:
            x = Html.cut(v, -n[2])
            if x is not None:
                return [(UNIT, I.store(st, dst[1], dst[2], x))]
        if v[0] in ("H", "T"):
            raise Viol("edit", "`%s` edits rendered output at a byte position" % short(t[1][1]))
    n, st = I.fresh(st, site)
    return [(n, st)]


@bi("String::is_empty", "str::is_empty")
def b_empty(I, st, fr, b, args, site, t):
    v = I.deep(st, args[0])
    if v[0] in ("T", "H"):
        e = I.is_empty(v)
        if e is not None:
            return [(TRUE if e else FALSE, st)]
        dst = I.target(st, args[0])
        if v[0] == "H" and dst and dst[1] == ("B",) and dst[2] == (I.cfg["alt"],):
            # the output found on entry sits in the secondary buffer.  If it is empty (as the secondary
            # buffer was on entry), which of the two is which makes no difference: name them afresh
            cur = I.load(st, ("B",), (I.cfg["html"],))
            cur = I.append(("H", "pre", (), ("data",), None), cur[1] if cur[0] == "T" else (("h", cur),))
            key = ("val", ("app", "is_empty", (v,)))
            return [(TRUE, I.store(I.store(x, ("B",), (I.cfg["html"],), cur), ("B",), (I.cfg["alt"],), EMPTY)) if m
                    else (FALSE, x) for m, x in I.truth(st, ("test", key, 1), site)]
        return [(("test", ("val", ("app", "is_empty", (v,))), 1), st)]
    if v[0] == "k":
        return [(FALSE if v[2] else TRUE, st)]
    return [(("test", ("val", v), ""), st)]


@bi("str::ends_with", "str::starts_with", "str::contains", "String::len", "str::len", "Regex::is_match")
def b_stest(I, st, fr, b, args, site, t):
    cur = I.cur
    vs = tuple(I.deep(st, a) for a in args)
    op = short(cur[1]).split("::")[-1]
    if vs[0][0] == "k" and isinstance(vs[0][2], str) and op == "len":
        return [(("k", "n", len(vs[0][2].encode())), st)]
    if vs[0][0] == "H":
        if op == "len":
            return [(("app", "hlen", (vs[0],)), st)]
        if op == "ends_with" and vs[1][0] == "k" and isinstance(vs[1][2], str) and vs[1][2]:
            known = Html.last(vs[0])
            if known is not None and known != vs[1][2][-1]:
                return [(FALSE, st)]
            return [(("app", "hend", (vs[0], vs[1])), st)]
    if vs[0][0] in ("H", "T"):
        n, st = I.fresh(st, site)
        return [(n, st)]
    return [(("app", short(cur[1]), vs), st)]


@bi("Arguments::new")
def b_args(I, st, fr, b, args, site, t):
    tpl, arr = I.deep(st, args[0]), I.deep(st, args[1])
    if tpl[0] == "k" and tpl[1] == "y" and arr[0] == "arr":
        out, bs, i, k = [], tpl[2], 0, 0
        while i < len(bs):
            c = bs[i]
            i += 1
            if c == 0:
                break
            if c < 128:
                out.append(("l", bytes(bs[i:i + c]).decode("utf8", "replace")))
                i += c
            elif c == 128:
                n = bs[i] + 256 * bs[i + 1]
                out.append(("l", bytes(bs[i + 2:i + 2 + n]).decode("utf8", "replace")))
                i += 2 + n
            else:
                x = c & 0x3f
                i += (4 if x & 1 else 0) + (2 if x & 2 else 0) + (2 if x & 4 else 0)
                j = k
                if x & 8:
                    j = bs[i] + 256 * bs[i + 1]
                    i += 2
                k = j + 1
                out += list(I.pieces(st, arr[1][j])) if j < len(arr[1]) else [("d", ("a", "fmt"))]
        return [(("fmt", tuple(out)), st)]
    return [(("fmt", (("d", ("a", "fmt")),)), st)]


@bi("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def b_args2(I, st, fr, b, args, site, t):
    return [(("fmt", I.pieces(st, args[0])), st)]


@bi("format")
def b_format(I, st, fr, b, args, site, t):
    return [(I.append(EMPTY, I.pieces(st, args[0])), st)]


# --- mem
def default_of(I, v):
    if v[0] in ("T", "H"):
        return EMPTY
    if v[0] == "adt" and last(v[1]) == "Option":
        return NONE
    if v[0] == "stk":
        return ("stk", ("k", "u", "empty"), ())
    if v[0] == "set":
        return ("set", ("k", "u", "empty"), ())
    return ("k", "u", "default")


@bi("take", "Option::take", "RefCell::take", "Cell::take")
def b_take(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is None:
        return [(args[0], st)]
    v = I.load(st, dst[1], dst[2])
    d = NONE if t and short(t[1][1]) == "Option::take" else default_of(I, v)
    return [(v, I.store(st, dst[1], dst[2], d))]


@bi("replace", "Option::replace")
def b_replace(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is None:
        n, st = I.fresh(st, site)
        return [(n, st)]
    v = I.load(st, dst[1], dst[2])
    return [(v, I.store(st, dst[1], dst[2], args[1]))]


@bi("RefCell::replace", "Cell::replace", "Cell::get")
def b_cellrepl(I, st, fr, b, args, site, t):
    n, st = I.fresh(st, site)
    return [(n, st)]


@bi("swap")
def b_swap(I, st, fr, b, args, site, t):
    a, c = I.target(st, args[0]), I.target(st, args[1])
    if a is None or c is None:
        raise Budget("mem::swap of unknown memory")
    va, vc = I.load(st, a[1], a[2]), I.load(st, c[1], c[2])
    st = I.store(st, a[1], a[2], vc)
    return [(UNIT, I.store(st, c[1], c[2], va))]


# --- sets and stacks
def set_member(I, st, s, e, site):
    """-> list of (bool, st)"""
    d = dict(s[2])
    if e in d:
        x = d[e]
        if isinstance(x, bool):
            return [(x, st)]
        return I.truth(st, ("test", ("in", x, e), 1), site)
    if s[1] == ("k", "u", "empty"):
        return [(False, st)]
    return I.truth(st, ("test", ("in", s[1], e), 1), site)


def set_put(s, e, b):
    d = dict(s[2])
    d[e] = b
    return ("set", s[1], tuple(sorted(d.items(), key=str)))


@bi("HashSet::contains", "HashSet::insert", "HashSet::remove", "HashSet::take")
def b_set(I, st, fr, b, args, site, t):
    op = short(t[1][1]).split("::")[-1]
    dst = I.target(st, args[0])
    s = I.load(st, dst[1], dst[2]) if dst else I.deep(st, args[0])
    e = I.deep(st, args[1])
    if s[0] == "k" and s[2] in ("default",):
        s = ("set", ("k", "u", "empty"), ())
    if s[0] != "set" or e[0] != "adt":
        if op == "contains":
            return [(("app", "contains", (s, e)), st)]
        n, st = I.fresh(st, site)
        return [(n, st)]
    e = e[2]
    if op == "contains":
        I.reads.add(e)
        return [(TRUE if m else FALSE, x) for m, x in set_member(I, st, s, e, site)]
    # the result of insert/remove is rarely used: avoid a fork
    used = t[3][0] in I.live(fr.fn)[0][t[4]] if t else True
    new = set_put(s, e, op == "insert")
    if not used:
        return [(TRUE, I.store(st, dst[1], dst[2], new))]
    I.reads.add(e)
    return [((TRUE if m else FALSE) if op != "insert" else (FALSE if m else TRUE), I.store(x, dst[1], dst[2], new))
            for m, x in set_member(I, st, s, e, site)]


@bi("[T]::contains")
def b_contains(I, st, fr, b, args, site, t):
    v, e = I.deep(st, args[0]), I.deep(st, args[1])
    if v[0] != "arr" or not all(x[0] in ("adt", "k") and (x[0] == "k" or not x[4]) for x in v[1]):
        return [(("app", "contains", (v, e)), st)]
    out, rest = [], [st]
    for x in v[1]:
        c, todo, rest = I.eq(e, x), rest, []
        for s in todo:
            for m, s2 in I.truth(s, c, site):
                if m:
                    out.append((TRUE, s2))
                else:
                    rest.append(s2)
    return out + [(FALSE, s) for s in rest]


@bi("Vec::push")
def b_vpush(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    if dst is not None:
        v = I.load(st, dst[1], dst[2])
        if v[0] == "stk":
            if len(v[2]) > 6:
                raise Cap(st.trace)
            st = I.store(st, dst[1], dst[2], ("stk", v[1], v[2] + (I.deep(st, args[1]),)))
        elif v[0] == "k" and v[2] == "default":
            st = I.store(st, dst[1], dst[2], ("stk", ("k", "u", "empty"), (I.deep(st, args[1]),)))
    return [(UNIT, st)]


@bi("Vec::pop")
def b_vpop(I, st, fr, b, args, site, t):
    dst = I.target(st, args[0])
    v = I.load(st, dst[1], dst[2]) if dst is not None else ("fresh", "?")
    if v[0] == "stk":
        if v[2]:
            return [(some(v[2][-1]), I.store(st, dst[1], dst[2], ("stk", v[1], v[2][:-1])))]
        if v[1] == ("k", "u", "empty"):
            return [(NONE, st)]
        return [(("app", "Vec::pop", (v[1],)), I.store(st, dst[1], dst[2], ("stk", ("app", "rest", (v[1],)), ())))]
    n, st = I.fresh(st, site)
    return [(n, st)]


@bi("[T]::last", "Vec::last", "[T]::last_mut")
def b_vlast(I, st, fr, b, args, site, t):
    v = I.deep(st, args[0])
    if v[0] == "stk":
        if v[2]:
            return [(some(v[2][-1]), st)]
        return [(("app", "last", (v[1],)), st)]
    if v[0] == "arr":
        return [(some(v[1][-1]) if v[1] else NONE, st)]
    if v[0] == "H":
        return [(("app", "lastch", (v,)), st)]
    return [(("app", "last", (v,)), st)]


@bi("Vec::new", "<Vec as Default>::default")
def b_vnew(I, st, fr, b, args, site, t):
    return [(("stk", ("k", "u", "empty"), ()), st)]


@bi("<HashSet as Default>::default", "HashSet::new")
def b_hnew(I, st, fr, b, args, site, t):
    return [(("set", ("k", "u", "empty"), ()), st)]


@bi("<bool as Default>::default")
def b_false(I, st, fr, b, args, site, t):
    return [(FALSE, st)]


@bi("<u8 as Default>::default", "<usize as Default>::default", "<isize as Default>::default", "<u16 as Default>::default")
def b_zero(I, st, fr, b, args, site, t):
    return [(("k", "n", 0), st)]


@bi("[T]::is_empty", "Vec::is_empty")
def b_vempty(I, st, fr, b, args, site, t):
    v = I.deep(st, args[0])
    if v[0] == "stk" and v[2]:
        return [(FALSE, st)]
    if v[0] == "stk" and v[1] == ("k", "u", "empty"):
        return [(TRUE, st)]
    if v[0] == "arr":
        return [(FALSE if v[1] else TRUE, st)]
    return [(("test", lenkey(v), 0), st)]


@bi("[T]::join", "[T]::concat")
def b_join(I, st, fr, b, args, site, t):
    v = I.deep(st, args[0])
    sep = I.deep(st, args[1]) if len(args) > 1 else ("k", "s", "")
    el = v[2] if v[0] == "stk" and v[1] == ("k", "u", "empty") else v[1] if v[0] == "arr" else None
    if el is None or len(el) > 8:
        return [(("T", (("d", ("app", "join", (v, sep))),)), st)]
    out = EMPTY
    for i, e in enumerate(el):
        if i:
            out = I.append(out, I.pieces(st, sep))
        out = I.append(out, I.pieces(st, e))
    return [(out, st)]


@bi("[T]::len", "Vec::len", "ExactSizeIterator::len")
def b_vlen(I, st, fr, b, args, site, t):
    v = I.deep(st, args[0])
    if v[0] == "arr":
        return [(("k", "n", len(v[1])), st)]
    return [(("app", "len", (v,)), st)]


@bi("[T]::first", "Vec::first", "first")
def b_first(I, st, fr, b, args, site, t):
    v = I.deep(st, args[0])
    if v[0] == "arr":
        return [(some(v[1][0]) if v[1] else NONE, st)]
    return [(("app", "first", (v,)), st)]


# --- comparison
@bi("PartialEq::eq", "PartialEq::ne")
def b_eq(I, st, fr, b, args, site, t):
    cur = I.cur
    r = I.eq(I.deep(st, args[0]), I.deep(st, args[1]))
    return [(r if short(cur[1]).endswith("eq") else I.neg(r), st)]


@bi("PartialOrd::le", "PartialOrd::lt", "PartialOrd::ge", "PartialOrd::gt")
def b_cmp(I, st, fr, b, args, site, t):
    cur = I.cur
    if "tracing" in (cur[2] or "") or "LevelFilter" in str(cur) or "metadata::Level" in str(cur):
        return [(FALSE, st)]
    op = {"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt"}[short(cur[1]).split("::")[-1]]
    return [(I.bin(st, op, I.deep(st, args[0]), I.deep(st, args[1])), st)]


# --- Option / Result
def split(I, st, o, site, yes="Some", yesn=1):
    """-> list of (payload or None, st)"""
    n = 0
    src = o
    while o[0] == "ref" and n < 9:
        src = o
        o = I.load(st, o[1], o[2])
        n += 1
    if o[0] == "adt":
        if o[2] == yes:
            p = o[4][0] if o[4] else UNIT
            if src[0] == "ref" and p[0] not in ("ref", "k", "a", "f", "app", "fresh"):
                return [(("ref", src[1], src[2] + (("@", yes), "0")), st)]
            return [(p, st)]
        return [(None, st)]
    out = []
    if o[0] == "app" and o[1] == "first":
        return [(None if e else ("f", o, "Some.0"), s) for e, s in I.truth(st, ("test", lenkey(o[2][0]), 0), site)]
    for b, s in I.truth(st, ("test", ("discr", o), yesn), site):
        out.append((I.getf(s, ("as", o, yes), "0") if b else None, s))
    return out


def ores(t):
    return "Result" in (t[1][1] or "") if t else False


def adapt(name):
    def deco(f):
        def h(I, st, fr, b, args, site, t):
            res = ores(t)
            out = []
            for p, s in split(I, st, args[0], site, "Ok" if res else "Some", 0 if res else 1):
                out += f(I, s, fr, b, p, args, site, res)
            return out
        for n in name.split():
            BUILTIN["Option::" + n] = h
            BUILTIN["Result::" + n] = h
        return f
    return deco


def wrap(v, res):
    return ("adt", "core::result::Result", "Ok", ("0",), (v,)) if res else some(v)


def none(args, res):
    return ("adt", "core::result::Result", "Err", ("0",), (("a", "err"),)) if res else NONE


@adapt("map")
def o_map(I, st, fr, b, p, args, site, res):
    if p is None:
        return [(none(args, res), st)]
    return [(wrap(v, res), s) for v, s in I.callv(st, fr, b, args[1], [p], site)]


@adapt("and_then")
def o_and_then(I, st, fr, b, p, args, site, res):
    if p is None:
        return [(none(args, res), st)]
    return I.callv(st, fr, b, args[1], [p], site)


@adapt("unwrap_or")
def o_unwrap_or(I, st, fr, b, p, args, site, res):
    return [(args[1] if p is None else p, st)]


@adapt("unwrap_or_else")
def o_unwrap_or_else(I, st, fr, b, p, args, site, res):
    return [(p, st)] if p is not None else I.callv(st, fr, b, args[1], [], site)


@adapt("unwrap_or_default")
def o_unwrap_or_default(I, st, fr, b, p, args, site, res):
    return [(p if p is not None else ("k", "u", "default"), st)]


@adapt("or")
def o_or(I, st, fr, b, p, args, site, res):
    return [(wrap(p, res) if p is not None else args[1], st)]


@adapt("or_else")
def o_or_else(I, st, fr, b, p, args, site, res):
    return [(wrap(p, res), st)] if p is not None else I.callv(st, fr, b, args[1], [], site)


@adapt("filter")
def o_filter(I, st, fr, b, p, args, site, res):
    if p is None:
        return [(NONE, st)]
    out = []
    for v, s in I.callv(st, fr, b, args[1], [p], site):
        for ok, s2 in I.truth(s, v, site + (-1,)):
            out.append((some(p) if ok else NONE, s2))
    return out


@adapt("is_some_and is_ok_and")
def o_is_some_and(I, st, fr, b, p, args, site, res):
    return [(FALSE, st)] if p is None else I.callv(st, fr, b, args[1], [p], site)


@adapt("is_none_or")
def o_is_none_or(I, st, fr, b, p, args, site, res):
    return [(TRUE, st)] if p is None else I.callv(st, fr, b, args[1], [p], site)


@adapt("map_or")
def o_map_or(I, st, fr, b, p, args, site, res):
    return [(args[1], st)] if p is None else I.callv(st, fr, b, args[2], [p], site)


@adapt("map_or_else")
def o_map_or_else(I, st, fr, b, p, args, site, res):
    return I.callv(st, fr, b, args[1], [], site) if p is None else I.callv(st, fr, b, args[2], [p], site)


@adapt("unwrap expect")
def o_unwrap(I, st, fr, b, p, args, site, res):
    return [] if p is None else [(p, st)]


@adapt("ok")
def o_ok(I, st, fr, b, p, args, site, res):
    return [(NONE if p is None else some(p), st)]


def o_is(I, st, fr, b, args, site, t):
    n = short(I.cur[1]).split("::")[-1]
    o = I.deep(st, args[0])
    yes = n in ("is_some", "is_ok")
    if o[0] == "adt":
        return [(TRUE if (o[2] in ("Some", "Ok")) == yes else FALSE, st)]
    if o[0] == "app" and o[1] == "first":
        k = I.neg(("test", lenkey(o[2][0]), 0))
    else:
        k = ("test", ("discr", o), 0 if "ok" in n or "err" in n else 1)
    return [(k if yes else I.neg(k), st)]


for _n in ("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err"):
    BUILTIN[_n] = o_is


@bi("Try::branch")
def b_try(I, st, fr, b, args, site, t):
    res = "Result" in str(t[1])
    CF = "core::ops::control_flow::ControlFlow"
    out = []
    for p, s in split(I, st, args[0], site, "Ok" if res else "Some", 0 if res else 1):
        out.append((("adt", CF, "Continue", ("0",), (p,)) if p is not None else ("adt", CF, "Break", ("0",), (none(args, res),)), s))
    return out


@bi("FromResidual::from_residual")
def b_resid(I, st, fr, b, args, site, t):
    return [(args[0], st)]


@bi("FnOnce::call_once", "Fn::call", "FnMut::call_mut")
def b_callonce(I, st, fr, b, args, site, t):
    a = args[1]
    return I.callv(st, fr, b, args[0], list(a[1]) if a[0] == "tup" else [] if a == UNIT else [a], site)


@bi("then", "bool::then")
def b_then(I, st, fr, b, args, site, t):
    out = []
    for ok, s in I.truth(st, args[0], site):
        if ok:
            out += [(some(v), s2) for v, s2 in I.callv(s, fr, b, args[1], [], site)]
        else:
            out.append((NONE, s))
    return out


def s_escaped(I, st, fr, b, args, site, fn):
    """push_escaped(src, dest, quotes): escaped text"""
    dst = I.target(st, args[1])
    src = I.deep(st, args[0])
    if src[0] == "k":
        return [(UNIT, I.push(st, dst, src))]
    return [(UNIT, I.push(st, dst, ("app", "esc", (src, I.deep(st, args[2])))))]


SUMMARY["push_escaped"] = s_escaped


def s_url(I, st, fr, b, args, site, fn):
    dst = I.target(st, args[0])
    src = I.deep(st, args[1])
    return [(UNIT, I.push(st, dst, src if src[0] == "k" else ("app", "urlenc", (src,))))]


SUMMARY["push_url_encoded"] = s_url


# ------------------------------------------------------------------ driver
def eval_roots(P, feedback_only=False):
    """recursion cut points of the evaluator: smallest-effort feedback set"""
    fns = {f.path: f for f in P.bodies({"asciidork_eval"})}
    cg = P.callgraph()

    def owner(p):
        while "::{closure" in p:
            p = p.rsplit("::{closure", 1)[0]
        return p
    edges = {}
    indeg = {}
    for p in fns:
        for c in cg[p]:
            if c[0] in fns and "{closure" not in c[0]:
                edges.setdefault(owner(p), set()).add(c[0])
                indeg[c[0]] = indeg.get(c[0], 0) + 1
    callers = {}
    for p, cs in edges.items():
        for c in cs:
            callers.setdefault(c, set()).add(p)
    roots = [p for p in fns if "{closure" not in p and takes_backend(fns[p]) and (
        len(callers.get(p, set()) - {p}) >= 2 or (fns[p].pub and any(True for _ in callers.get(p, ()))))]
    if feedback_only:
        roots = [p for p in roots if fns[p].pub]
    while True:
        best = None
        for p in edges:
            if p in roots:
                continue
            seen, work = set(), [x for x in edges[p] if x not in roots]
            while work:
                q = work.pop()
                if q in seen:
                    continue
                seen.add(q)
                work += [x for x in edges.get(q, ()) if x not in roots]
            if p in seen and (best is None or indeg.get(p, 0) > indeg.get(best, 0)):
                best = p
        if best is None:
            return roots
        roots.append(best)


def takes_backend(fn):
    return any(fn.ty(i).startswith("&mut") for i in range(1, fn.argc + 1))


def backend_cfg(P, adt):
    a = P.adts[adt]
    types = a["types"]
    flds = [(n, types[t] if isinstance(t, int) else t) for n, t, *_ in a["variants"][0][2]]

    def accessor(name):
        for i in P.impls:
            if strip_generics(i["self"]) == adt:
                for tm, im in i["methods"]:
                    if tm.endswith("::" + name):
                        e = P.fns[im].sym_local(0)
                        while e[0] not in ("field",) and len(e) > 1 and isinstance(e[1], tuple):
                            e = e[1]
                        if e[0] == "field":
                            return e[2]
        return None
    from mir import MissingAnchor
    h, al = accessor("htmlbuf"), accessor("alt_htmlbuf")
    if not h or not al:
        raise MissingAnchor("buffer accessors of " + adt)
    return {"fields": [n for n, _ in flds], "types": dict(flds), "html": h, "alt": al}


def entry_object(P, cfg, adt, alt_empty, pre=None, cand=None):
    """symbolic backend: tracked leaves are given their abstract shapes.
    pre: flags (bool fields, set elements) assumed clear; cand: collects every such flag"""
    me = ("a", "self")

    def where(v):
        p = ()
        while v[0] == "f":
            p = (v[2],) + p
            v = v[1]
        return p

    def shape(v, ty, depth):
        b = strip_generics(ty)
        if ty == "bool":
            if cand is not None:
                cand.add((where(v), None))
            return FALSE if pre and (where(v), None) in pre else v
        if ty.startswith("std::collections::HashSet") or "HashSet<" in ty[:40] or b.endswith("HashSet"):
            el = ty[ty.find("<") + 1:ty.rfind(">")].split(",")[0].strip()
            c = P.adts.get(el) or (P.adt_by_name.get(el.split("::")[-1]) or [None])[0]
            names = [x[0] for x in c["variants"]] if c else []
            if cand is not None:
                cand.update((where(v), n) for n in names)
            return ("set", v, tuple(sorted(((n, False) for n in names if pre and (where(v), n) in pre), key=str)))
        if b.endswith("vec::Vec") or b == "Vec":
            return ("stk", v, ())
        c = P.adts.get(b) or (P.adt_by_name.get(b.split("::")[-1]) or [None])[0]
        if c and len(c["variants"]) == 1 and depth < 2 and c["crate"] in ("asciidork_backend",) :
            ov = []
            for n, t, *_ in c["variants"][0][2]:
                ft = c["types"][t] if isinstance(t, int) else t
                s = shape(("f", v, n), ft, depth + 1)
                if s != ("f", v, n):
                    ov.append((n, s))
            if ov:
                return ("upd", v, tuple(sorted(ov)))
        return v
    ov = []
    for n, ty in cfg["types"].items():
        if n == cfg["html"]:
            s = ("H", "pre", (), ("data",), None)
        elif n == cfg["alt"]:
            s = EMPTY if alt_empty else ("T", (("d", ("a", "outer output")),))
        else:
            s = shape(("f", me, n), ty, 0)
        if s != ("f", me, n):
            ov.append((n, s))
    return ("upd", me, tuple(sorted(ov)))


def leaves(v, path=()):
    if v[0] == "upd":
        for n, x in v[2]:
            yield from leaves(x, path + (n,))
    else:
        yield path, v


class Job:
    """one root, possibly restricted to one case of its dispatch"""

    def __init__(self, root, case):
        self.root, self.case = root, case       # case: ((key, con), ...)
        self.keep = set()
        self.cover = {}
        self.cap = 20000
        self.optional = False

    def key(self):
        return (self.root, self.case)


class Out:
    pass


def check_exit(I, cfg, obj, res):
    """problems at the exits of a root: list of (kind, detail, trace) and modified leaves {leaf: trace}"""
    probs, mods = {}, {}
    I.direct, I.consumed = {}, set()

    def direct(path, elem, v, st):
        # changed here rather than by something rendered within
        if v in I.havoc or v[:1] == ("stk",) and v[1] in I.havoc and not v[2]:
            return
        if v[0] == "f" and v[1] == ("a", "self"):
            return          # a copy of another field
        for p2, v2 in leaves(st.mem[("B",)]):
            if p2 != path and elem is None and v[0] not in ("k", "adt") and v == v2:
                return      # a copy of another field
            o2 = obj
            for q in p2:
                o2 = I.getf(st, o2, q)
            if p2 != path and elem is None and v == o2:
                return
        decl = any(e[0] == "ev" and "attribute_decl" in str(e[1]) for e in trace_list(st.trace))
        add(I.direct, (path, elem, vrepr(v), decl), st.trace)

    def add(d, k, tr):
        if k not in d or (contradictions(d[k], I.dom) and not contradictions(tr, I.dom)):
            d[k] = tr
    for _, s in res:
        B = s.mem[("B",)]
        h = I.getf(s, B, cfg["html"])
        al = I.getf(s, B, cfg["alt"])
        a0 = I.getf(s, obj, cfg["alt"])
        if h[0] != "H" or h[1] != "pre":
            add(probs, ("swapped", "the output buffer is not the one found on entry"), s.trace)
        elif h[3][0] != "data":
            add(probs, ("lex", "output ends inside a tag: %s" % (h[3],)), s.trace)
        elif h[2]:
            add(probs, ("open", "elements left open: %s" % ", ".join("<%s>" % x for x in h[2])), s.trace)
        if al != a0:
            add(probs, ("alt", "the secondary buffer is left %s" % (
                "non-empty" if I.is_empty(al) is not True else "empty")), s.trace)
        for path, v in leaves(B):
            if path in ((cfg["html"],), (cfg["alt"],)):
                continue
            o = obj
            for p in path:
                o = I.getf(s, o, p)
            if v == o:
                continue
            if v[0] == "set" and o[0] == "set":
                if v[1] != o[1]:
                    add(mods, (path, None), s.trace)
                    direct(path, None, v, s)
                for e, x in v[2]:
                    if (e, x) in o[2]:
                        continue
                    k = ("in", o[1], e)
                    if s.test(k, 1) is not None and s.test(k, 1) == x:
                        continue
                    # an element found to be a member and put back is unchanged
                    tr = trace_list(s.trace)
                    c = [q[1] for q in tr if q[0] == k]
                    if c and isinstance(x, bool) and all(q == ("=", int(x)) for q in c):
                        continue
                    add(mods, (path, e), s.trace)
                    if x is False and c:    # a flag that was found set and consumed is no leak
                        I.consumed.add((path, e))
                    else:
                        direct(path, e, ("k", "bool", x) if isinstance(x, bool) else x, s)
            else:
                add(mods, (path, None), s.trace)
                direct(path, None, v, s)
    return probs, mods


def run_job(I, cfg, adt, job, verbose):
    """refine (CEGAR on tracked facts) until every reported problem lies on a consistent path"""
    P = I.P
    fn = P.fns[job.root]
    nm = fn.short + "".join("/%s%s" % ("" if c[0] == "=" else "!", c[1] if c[0] == "=" else ",".join(str(x) for x in sorted(c[1], key=str))) for _, c in job.case)
    I.root = nm
    I.cover = dict(job.cover)
    I.dom, I.viol, I.panics, I.unknown = dict(I.dom0), {}, {}, {}
    I.fnseen, I.reads = set(), set()
    pre = dict(job.case)
    I.pinned = frozenset(pre)
    keep = set(job.keep)
    it, cap = 0, job.cap
    t0 = time.time()
    while True:
        it += 1
        if it > 40:
            raise Budget("refinement of %s does not settle" % nm)
        I.keep = keep | set(pre)
        I.scope = dict(I.cover)
        w0 = I.widened
        I.viol, I.panics, I.memo = {}, {}, {}
        I.cap, I.active, I.steps, I.prof = cap, [], 0, {}
        if I.dbg is not None:
            I.dbg = {}
        try:
            I.weaken = set()
            obj = entry_object(P, cfg, adt, job.root in cfg["alt_empty"], I.pre.get(job.root))
            st = St({("B",): obj}, dict(pre))
            args = []
            for i in range(1, fn.argc + 1):
                ty = fn.ty(i)
                args.append(("ref", ("B",), ()) if ty.startswith("&mut") else ("a", fn.lname(i) or "_%d" % i))
            res = I.run(fn, args, st, (), 0, ())
        except Cap as e:
            new = set()
            trs = [e.args[0]] + [s.trace for w in I.active for _, s in w[-400:]] + [v[2] for v in I.viol.values()]
            for n, tr in enumerate(trs):
                if n % 50 == 0 and I.deadline and time.time() > I.deadline:
                    raise Budget("time is up")
                new |= contradictions(tr, I.dom)
            new -= keep
            if verbose > 1:
                print("   %s it %d: cap %d; refine %d" % (nm, it, cap, len(new)), [krepr(k) for k in new][:8], flush=True)
            if new:
                keep |= new
            elif cap >= 80000 and len(pre) < 4 and split_on(I, pre, trs):
                raise Split(split_on(I, pre, trs), keep, I.cover, I.dom)
            elif I.widened == w0 or not any(contradictions(tr, I.dom) for tr in trs):
                cap *= 4
                if cap > I.MAX:
                    raise Budget("%d steps in %s %s" % (I.steps, nm, sorted(I.prof.items(), key=lambda x: -x[1])[:10]))
            continue
        probs, mods = check_exit(I, cfg, obj, res)
        new = set()
        for tr in [v[2] for v in I.viol.values()] + [v[1] for v in I.panics.values()] + \
                list(probs.values()) + list(mods.values()) + list(I.direct.values()):
            new |= contradictions(tr, I.dom)
        if verbose > 1:
            print("   %s it %d: %d steps %d viol %d probs %d mods; refine %d" % (
                nm, it, I.steps, len(I.viol), len(probs), len(mods), len(new - keep)), [krepr(k) for k in new - keep][:8], flush=True)
        if not new - keep and not (new and I.widened > w0):
            break
        keep |= new
    ok = lambda tr: not contradictions(tr, I.dom)
    o = Out()
    o.key, o.name, o.keep, o.cover, o.cap = job.key(), nm, keep, I.cover, cap
    o.steps, o.exits, o.time, o.dom = I.steps, len(res), time.time() - t0, I.dom
    o.probs = {k: show(t) for k, t in probs.items() if ok(t)}
    o.mods = {k: show(t, 8) for k, t in mods.items() if ok(t)}
    o.consumed = I.consumed
    o.direct = {k: show(t, 12) for k, t in I.direct.items() if ok(t)}
    o.viol = {k: (v[0].path, v[1], show(v[2]), v[3]) for k, v in I.viol.items() if ok(v[2])}
    o.panics = {k: (v[0].path, show(v[1], 8), v[2]) for k, v in I.panics.items() if ok(v[1])}
    o.root, o.weaken, o.assumed = job.root, set(I.weaken), set(I.assumed)
    o.unknown, o.fnseen, o.widened, o.reads = dict(I.unknown), set(I.fnseen), I.widened, set(I.reads)
    if verbose:
        print("%-34s it %d: %d steps, %d facts, %d exits, %.1fs" % (nm, it, I.steps, len(keep), len(res), time.time() - t0), flush=True)
    return o


class Split(Exception):
    """a job is too big for one process"""


def split_on(I, pre, trs):
    """a fact about the arguments that is decided early: (key, (con, con))"""
    cnt = {}
    for tr in trs:
        n = 0
        for e in trace_list(tr):
            if e[0] in ("purge", "ev"):
                continue
            key, con, _ = e
            if key in pre or key not in I.keep or mentions(key, lambda x: isinstance(x, tuple) and x[:1] == ("fresh",)):
                continue
            c = cnt.setdefault(key, [0, 0, set()])
            c[0] += 1
            c[1] += n
            c[2].add(con)
            n += 1
    best = None
    for key, (n, pos, cons) in sorted(cnt.items(), key=lambda x: repr(x[0])):
        vals = {c[1] for c in cons if c[0] == "="} or {x for c in cons for x in c[1]}
        if len(cons) < 2:
            continue
        d = (-n, pos / n)
        if best is None or d < best[0]:
            best = d, key, min(vals, key=str)
    if best is None:
        return None
    return best[1], (("=", best[2]), ("!", frozenset([best[2]])))


def _work(I, cfg, adt, j, verbose):
    try:
        return run_job(I, cfg, adt, j, verbose), None
    except Budget as e:
        return None, str(e)
    except Split as e:
        return None, e.args
    except RecursionError:
        return None, "recursion"
    except Exception as e:
        import traceback
        if verbose:
            print(traceback.format_exc()[-1500:], flush=True)
        return None, "internal: %r at line %s" % (e, traceback.extract_tb(e.__traceback__)[-1].lineno)


def _job(wr, I, cfg, adt, j, verbose):
    import gc
    gc.disable()        # values are acyclic tuples
    r = _work(I, cfg, adt, j, verbose)
    wr.send(r)
    wr.close()


def analyse(P, adt, only=None, verbose=False, procs=8, case=None, limit=None):
    import multiprocessing as mp, multiprocessing.connection
    must = eval_roots(P, feedback_only=True)
    extra = [f.path for f in P.bodies({"asciidork_eval"}) if "{closure" not in f.path and takes_backend(f)
             and f.path not in must and any(f.ty(i).startswith("&mut") for i in range(1, f.argc + 1))]
    roots = must + extra
    cfg = backend_cfg(P, adt)
    # inline content may be rendered into a buffer while a title is pending; everything else may not
    inl = [r for r in roots if any("InlineNode" in P.fns[r].ty(i) for i in range(1, P.fns[r].argc + 1))]
    seen, todo = set(), list(inl)
    cg = P.callgraph()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        todo += [c[0] for c in cg.get(p, ()) if c[0] in P.fns and P.fns[c[0]].crate == "asciidork_eval"]
    # a function that adds nothing but inline rendering to itself may be used wherever inline content may
    for r in roots:
        own, todo = set(), [r]
        while todo:
            p = todo.pop()
            if p not in own and p not in seen:
                own.add(p)
                todo += [c[0] for c in cg.get(p, ()) if c[0] in P.fns and P.fns[c[0]].crate == "asciidork_eval"]
        if all(p == r or p.startswith(r + "::{closure") for p in own):
            seen.add(r)
    cfg["alt_empty"] = set(r for r in roots if r not in seen)
    cand = set()
    entry_object(P, cfg, adt, True, None, cand)
    pre = {r: frozenset(cand) for r in roots}
    I = Interp(P, adt, set(roots), cfg)
    I.pre = pre
    I.dom0 = {}
    I.deadline = time.time() + limit if limit else None
    def mk(r):
        c = cases(I, cfg, adt, r)
        if c is None:
            return [Job(r, ())]
        I.dom0[c[0]] = set(c[1])
        return [Job(r, ((c[0], ("=", n)),)) for n in c[1] if case is None or n in case]
    jobs = []
    for r in roots:
        if not only or P.fns[r].short in only:
            jobs += mk(r)
    for j in jobs:
        j.optional = j.root in extra
    outs = {}
    rounds = 0
    dirty = {j.key() for j in jobs}
    demoted, allfails = [], []
    reads, late, T0 = set(), set(), time.time()
    entry = {r for r in roots if any("Document" in P.fns[r].ty(i) for i in range(1, P.fns[r].argc + 1))}
    running, times = {}, {}
    ctx = mp.get_context("fork")

    def spawn(j):
        rd, wr = ctx.Pipe(False)
        p = ctx.Process(target=_job, args=(wr, I, cfg, adt, j, verbose))
        p.start()
        wr.close()
        running[rd] = (p, j)
    while True:
        rounds += 1
        if rounds > 100:
            raise Budget("modified-field sets do not settle")
        cur = [j for _, j in running.values()]
        todo = [j for j in jobs if j.key() in dirty and j not in cur]
        # optional roots first: if one is no contract of its own, it is inlined and its callers need no second look
        # and the whole document last
        alive = todo + cur
        if any(j.root in extra for j in alive):
            todo = [j for j in todo if j.root in extra]
        elif any(j.root not in entry for j in alive):
            todo = [j for j in todo if j.root not in entry or j.key() not in times]
        todo.sort(key=lambda j: -times.get(j.key(), 1e9 if j.root in entry else 5))
        fails = []
        if procs > 1:
            got, todo = [], todo[::-1]
            while todo or running:
                while todo and len(running) < procs:
                    j = todo.pop()
                    dirty.discard(j.key())
                    spawn(j)
                for rd in mp.connection.wait(list(running)):
                    p, j = running.pop(rd)
                    try:
                        o, err = rd.recv()
                    except EOFError:
                        o, err = None, "analysis process ended early"
                    rd.close()
                    p.join()
                    got.append((j, o, err))
        else:
            for j in todo:
                dirty.discard(j.key())
            got = [(j,) + _work(I, cfg, adt, j, verbose) for j in todo]
        if not got:
            break
        changed = set()
        weak = set()
        for j, o, err in got:
            if j not in jobs or j.root not in I.roots:
                continue
            if o is not None:
                weak |= o.weaken
                times[j.key()] = o.time
            if isinstance(err, tuple):
                dirty.discard(j.key())
                (k, cons), keep, cover, dom = err
                outs.pop(j.key(), None)
                jobs.remove(j)
                for c in cons:
                    if c[0] == "!" and k in dom and len(dom[k]) == 2:
                        c = ("=", next(iter(dom[k] - c[1])))
                    n = Job(j.root, j.case + ((k, c),))
                    n.keep, n.cover, n.cap = set(keep), dict(cover), j.cap
                    jobs.append(n)
                    dirty.add(n.key())
                if verbose:
                    print("   split", P.fns[j.root].short, krepr(k)[:80], [c[0] for c in cons], flush=True)
                continue
            if j.root in extra and (o is None or o.probs or o.viol):
                changed.add(j.root)
                if verbose > 1 and o is not None:
                    for k, tr in o.probs.items():
                        print("   demoted", o.name, k, tr)
                    for k, x in o.viol.items():
                        print("   demoted", o.name, k[2], x[1], x[2])
                if j.root not in demoted:
                    demoted.append(j.root)
                continue
            if o is None:
                fails.append((j, err))
                continue
            outs[j.key()] = o
            j.keep, j.cover, j.cap = o.keep, o.cover, o.cap
            reads |= o.reads
        byk = {j.key(): j for j in jobs}
        for k, o in outs.items():
            j = byk.get(k)
            if j is None:
                continue
            ms = I.modsets[j.root] | frozenset(m for m in o.mods if m[1] is None or m[1] in reads)
            if ms != I.modsets[j.root]:
                if verbose > 1:
                    for k, tr in o.mods.items():
                        if k not in I.modsets[j.root]:
                            print("   MOD round", rounds, o.name, k, tr[-8:])
                I.modsets[j.root] = ms
                changed.add(j.root)
        if verbose:
            print("round %d (%.0fs)" % (rounds, time.time() - T0), "alt", sorted(short(x) for x in cfg["alt_empty"]) if rounds == 1 else "", "demoted", [short(x) for x in demoted], "changed", [short(x) for x in changed],
                  "fails", [(P.fns[j.root].short, [c for _, c in j.case], e[:150]) for j, e in fails], flush=True)
        # a flag nobody reads needs no tracking
        weak |= late
        late = {w for w in weak if w[1][1] is not None and w[1][1] not in reads}
        for r, e in sorted(weak - late, key=str):
            if e in I.pre.get(r, ()):
                I.pre[r] = I.pre[r] - {e}
                dirty |= {j.key() for j in jobs if j.root == r}
                if verbose:
                    print("   not always clear at", P.fns[r].short, e)
        # a function that could not be analysed is left out; what the others show still counts
        for j, _ in fails:
            if j in jobs:
                jobs.remove(j)
        allfails += fails
        if I.deadline and time.time() > I.deadline:
            allfails += [(j, "time is up") for j in jobs if j.key() in dirty or j in cur]
            break
        for r in demoted:
            if r in I.roots:
                I.roots.discard(r)
                extra.remove(r)
                jobs = [j for j in jobs if j.root != r]
        dirty = {k for k in dirty if k[0] in I.roots}
        # whoever calls a function whose contract changed is looked at again
        for r in changed:
            for c in callers_of(P, r, I.roots):
                dirty |= {j.key() for j in jobs if j.root == c}
    live = {j.key() for j in jobs}
    I.rounds, I.entry = rounds, entry
    return I, [o for k, o in outs.items() if k in live], allfails


def callers_of(P, r, roots):
    """roots from which r is reached without going through another root"""
    cg = P.callgraph()
    out = set()
    for q in roots:
        seen, work = set(), [q]
        while work:
            p = work.pop()
            if p in seen:
                continue
            seen.add(p)
            for c in cg.get(p, ()):
                c = c[0]
                if c == r:
                    out.add(q)
                if c in P.fns and P.fns[c].crate == "asciidork_eval" and c not in roots:
                    work.append(c)
    return out


def cases(I, cfg, adt, r):
    """the widest enum discriminant of a field of an argument on which the root itself branches: (key, values)"""
    fn = I.P.fns[r]
    I.root, I.cover, I.dom, I.shallow, I.keep, I.pinned = fn.short, {}, {}, set(), set(), frozenset()
    I.steps, I.cap, I.scope, I.active = 0, 20000, {}, []
    obj = entry_object(I.P, cfg, adt, True)
    args = []
    for i in range(1, fn.argc + 1):
        ty = fn.ty(i)
        args.append(("ref", ("B",), ()) if ty.startswith("&mut") else ("a", fn.lname(i) or "_%d" % i))
    try:
        I.run(fn, args, St({("B",): obj}, {}), (), 0, ())
    except Cap:
        pass
    best = None
    for k in sorted(I.shallow, key=repr):
        d = I.dom.get(k)
        if d and len(d) > 3 and (best is None or len(d) > len(best[1])):
            best = (k, sorted(d))
    I.shallow, I.viol, I.panics, I.cover = None, {}, {}, {}
    return best
