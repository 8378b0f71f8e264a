"""Interval analysis of the integer operations of one function.

Forward dataflow over MIR: every integer local and every integer place (named by its symbolic
expression) has an interval; comparisons on branches and matches on values refine it; writes
and calls that may write forget it."""
import re
from mir import strip_generics, short

INF = 1 << 70
RANGE = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1),
         "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1),
         "isize": (-2**63, 2**63 - 1), "bool": (0, 1), "char": (0, 0x10ffff)}
NEG = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le", "Eq": "Ne", "Ne": "Eq"}
SWAP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}


def arith(op, a, b):
    if op == "Add":
        return a[0] + b[0], a[1] + b[1]
    if op == "Sub":
        return a[0] - b[1], a[1] - b[0]
    if op == "Mul":
        c = [x * y for x in a for y in b]
        return min(c), max(c)
    return None


def meet(a, b):
    return max(a[0], b[0]), min(a[1], b[1])


def fits(iv, ty):
    return RANGE[ty][0] <= iv[0] and iv[1] <= RANGE[ty][1]


class Intervals:
    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.before = {}
        self.run()

    # state: dict  ("l", n) -> iv | ("e", expr) -> iv | ("al", n) -> expr | ("c", n) -> (op, x, y)
    def tyop(self, o):
        if o[0] in ("p", "m"):
            pl = o[1]
            if len(pl) == 1:
                return self.fn.ty(pl[0])
            if len(pl) == 2 and pl[1] == "*":
                return self.fn.ty(pl[0]).replace("&mut ", "").replace("&", "").strip()
            # a field: declared type where the definition says so
            f = pl[-1]
            if f != "*" and f[0] == "f":
                t = self.P.field_type(f[2], f[1]) if hasattr(self.P, "field_type") else None
                return t
            return None
        if o[0] == "k":
            return self.fn.types[o[1]]
        return None

    def key(self, pl):
        return norm(self.fn.sym_place(pl))

    def ev(self, st, o):
        if o[0] == "k":
            v = o[2]
            t = self.fn.types[o[1]]
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                if t in RANGE and v > RANGE[t][1]:
                    v -= 1 << {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(t, 0)
                return (v, v)
            if isinstance(v, str) and len(v) == 1:
                return (ord(v), ord(v))
            return RANGE.get(t, (-INF, INF))
        if o[0] in ("p", "m"):
            pl = o[1]
            if len(pl) == 1:
                iv = st.get(("l", pl[0]))
                if iv is not None:
                    return iv
                return RANGE.get(self.fn.ty(pl[0]), (-INF, INF))
            iv = st.get(("e", self.key(pl)))
            if iv is not None:
                return iv
            if len(pl) == 2 and pl[1] not in ("*", "?") and pl[1][0] == "f" and ("p", pl[0]) in st and pl[1][1] == "0":
                return st[("p", pl[0])]
            t = self.tyop(o)
            return RANGE.get(t, (-INF, INF))
        return (-INF, INF)

    def rv(self, st, pl, rv):
        """interval of an rvalue, or None"""
        k = rv[0]
        t = self.fn.ty(pl[0]) if len(pl) == 1 else None
        if k == "use":
            return self.ev(st, rv[1])
        if k == "cast":
            iv = self.ev(st, rv[1])
            to = self.fn.types[rv[2]]
            if to in RANGE:
                return iv if fits(iv, to) else RANGE[to]
            return None
        if k == "bin":
            op = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
            a, b = self.ev(st, rv[2]), self.ev(st, rv[3])
            r = self.sub(st, rv[2], rv[3]) if op == "Sub" else arith(op, a, b)
            if r is None:
                if op == "Rem" and b[0] > 0 and a[0] >= 0:
                    r = (0, min(a[1], b[1] - 1))
                elif op == "BitAnd" and a[0] >= 0 and b[0] >= 0:
                    r = (0, min(a[1], b[1]))
                elif op == "Div" and b[0] > 0 and a[0] >= 0:
                    r = (a[0] // b[1], a[1] // b[0])
                elif op == "Shr" and a[0] >= 0 and b[0] == b[1] and b[0] >= 0:
                    r = (a[0] >> b[0], a[1] >> b[0])
                elif op in NEG:
                    r = (0, 1)
            if r is not None and not rv[1].endswith("WithOverflow") and t in RANGE and not fits(r, t):
                r = RANGE[t]
            return r
        return None

    def kill_local(self, st, l):
        for k in list(st):
            if k in (("l", l), ("p", l), ("al", l), ("c", l)):
                del st[k]
            elif k[0] == "e" and mentions(k[1], l):
                del st[k]
            elif k[0] == "al" and mentions(st[k], l):
                del st[k]
            elif k[0] == "ge" and (mentions(k[1], l) or mentions(k[2], l)):
                del st[k]
            elif k[0] == "c" and any(x[0] in ("p", "m") and x[1][0] == l for x in st[k][1:]):
                del st[k]

    def kill_expr(self, st, e):
        for k in list(st):
            if k[0] == "e" and related(k[1], e):
                del st[k]
            elif k[0] == "al" and related(st[k], e):
                del st[k]
            elif k[0] == "ge" and (related(k[1], e) or related(k[2], e)):
                del st[k]

    def kill_mem(self, st):
        for k in list(st):
            if k[0] in ("e", "al") or k[0] == "ge" and not (k[1][0] == "loc" and k[2][0] == "loc"):
                del st[k]

    def assign(self, st, pl, rv):
        if rv[0] == "dead":
            self.kill_local(st, pl[0])
            return
        iv = self.rv(st, pl, rv)
        src = None
        if rv[0] in ("use", "cast") and rv[1][0] in ("p", "m") and (rv[0] == "use" or iv is not None and iv == self.ev(st, rv[1])):
            spl = rv[1][1]
            if len(spl) > 1:
                src = self.key(spl)
            else:
                src = st.get(("al", spl[0])) or ("loc", spl[0])
        if len(pl) == 1:
            self.kill_local(st, pl[0])
            if iv is not None and self.fn.ty(pl[0]) in RANGE:
                iv = meet(iv, RANGE[self.fn.ty(pl[0])])
            if iv is not None:
                if rv[0] == "bin" and rv[1].endswith("WithOverflow"):
                    st[("p", pl[0])] = iv
                elif self.fn.ty(pl[0]) in RANGE:
                    st[("l", pl[0])] = iv
            if rv[0] == "bin" and rv[1] in NEG:
                st[("c", pl[0])] = (rv[1], rv[2], rv[3])
            if src is not None and not mentions(src, pl[0]) and src != ("loc", pl[0]):
                st[("al", pl[0])] = src
        else:
            e = self.key(pl)
            self.kill_expr(st, e)
            if iv is not None:
                st[("e", e)] = iv

    def call(self, st, t):
        f, args, dest = t[1], t[2], t[3]
        iv = None
        path = f[2] or f[1] if f[0] == "fn" else ""
        nm = strip_generics(path).split("::")[-1]
        rt = self.fn.ty(dest[0]) if len(dest) == 1 else None
        a = [self.ev(st, x) for x in args]
        if rt in RANGE:
            R = RANGE[rt]
            if nm == "min" and len(a) == 2:
                iv = (min(a[0][0], a[1][0]), min(a[0][1], a[1][1]))
            elif nm == "max" and len(a) == 2:
                iv = (max(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
            elif nm == "clamp" and len(a) == 3:
                iv = (max(a[0][0], a[1][0]), min(max(a[0][1], a[1][0]), a[2][1]))
            elif nm.startswith("saturating_") and len(a) == 2 and nm[11:].capitalize() in ("Add", "Sub", "Mul"):
                iv = meet(arith(nm[11:].capitalize(), a[0], a[1]), (-INF, INF))
                iv = (min(max(iv[0], R[0]), R[1]), max(min(iv[1], R[1]), R[0]))
            elif nm in ("from", "into", "clone", "to_owned", "unsigned_abs") and len(a) == 1 and fits(a[0], rt):
                iv = a[0]
            elif nm == "to_digit" or nm == "len_utf8":
                iv = (0, 36) if nm == "to_digit" else (1, 4)
            if iv is not None:
                iv = meet(iv, R)
        # effects: an accessor that only hands out a reference leaves the values alone
        rts = (rt or "").strip()
        writes = any(self.fn.ty(x[1][0]).startswith("&mut") and len(x[1]) == 1 or
                     "RefMut" in self.fn.ty(x[1][0]) for x in args if x[0] in ("p", "m"))
        if writes and not rts.startswith("&"):
            self.kill_mem(st)
            for x in args:
                if x[0] in ("p", "m") and len(x[1]) == 1:
                    for d in self.fn.defs().get(x[1][0], ()):
                        if d[2] == "rv" and d[3][0] == "ref":
                            self.kill_local(st, d[3][1][0]) if "*" not in d[3][1] else None
        if len(dest) == 1:
            self.kill_local(st, dest[0])
            if iv is not None:
                st[("l", dest[0])] = iv
        else:
            self.kill_expr(st, self.key(dest))

    def refine(self, st, o, iv):
        """o's value lies in iv; False = impossible"""
        if o[0] not in ("p", "m"):
            x = meet(self.ev(st, o), iv)
            return x[0] <= x[1]
        pl = o[1]
        x = meet(self.ev(st, o), iv)
        if x[0] > x[1]:
            return False
        if len(pl) == 1:
            st[("l", pl[0])] = x
            e = st.get(("al", pl[0]))
            n = 0
            while e is not None and e[0] == "loc" and n < 8:
                l = e[1]
                st[("l", l)] = meet(st.get(("l", l), RANGE.get(self.fn.ty(l), (-INF, INF))), x)
                e = st.get(("al", l))
                n += 1
            if e is not None and e[0] != "loc":
                st[("e", e)] = meet(st.get(("e", e), (-INF, INF)), x)
        else:
            st[("e", self.key(pl))] = x
        return True

    def ident(self, st, o):
        """what an operand is a copy of"""
        if o[0] not in ("p", "m"):
            return None
        if len(o[1]) > 1:
            return self.key(o[1])
        e = ("loc", o[1][0])
        for _ in range(8):
            if e[0] != "loc":
                break
            n = st.get(("al", e[1]))
            if n is None:
                break
            e = n
        return e

    def sub(self, st, x, y):
        """x - y, with what is known about their order"""
        r = arith("Sub", self.ev(st, x), self.ev(st, y))
        g = st.get(("ge", self.ident(st, x), self.ident(st, y)))
        return r if g is None else (max(r[0], g[0]), r[1])

    def cmp(self, st, op, x, y):
        i, j = self.ident(st, x), self.ident(st, y)
        if i is not None and j is not None:
            if op in ("Gt", "Ge", "Eq"):
                st[("ge", i, j)] = (1 if op == "Gt" else 0, INF)
            if op in ("Lt", "Le", "Eq"):
                st[("ge", j, i)] = (1 if op == "Lt" else 0, INF)
        return self.cmp1(st, op, x, y)

    def cmp1(self, st, op, x, y):
        a, b = self.ev(st, x), self.ev(st, y)
        if op == "Lt":
            return self.refine(st, x, (-INF, b[1] - 1)) and self.refine(st, y, (a[0] + 1, INF))
        if op == "Le":
            return self.refine(st, x, (-INF, b[1])) and self.refine(st, y, (a[0], INF))
        if op in ("Gt", "Ge"):
            return self.cmp1(st, SWAP[op], y, x)
        if op == "Eq":
            return self.refine(st, x, b) and self.refine(st, y, a)
        if op == "Ne":
            if b[0] == b[1]:
                if a == b:
                    return False
                if a[0] == b[0]:
                    return self.refine(st, x, (a[0] + 1, INF))
                if a[1] == b[0]:
                    return self.refine(st, x, (-INF, a[1] - 1))
            elif a[0] == a[1]:
                return self.cmp1(st, "Ne", y, x)
        return True

    def edges(self, st, b):
        t = b["t"]
        k = t[0]
        if k == "switch":
            o = t[1]
            ty = self.tyop(o)
            c = st.get(("c", o[1][0])) if o[0] in ("p", "m") and len(o[1]) == 1 else None
            vals = []
            for v, tgt in t[2]:
                if ty in RANGE and isinstance(v, int) and v > RANGE[ty][1]:
                    v -= 1 << {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(ty, 0)
                vals.append(v)
                s = dict(st)
                ok = True
                if c is not None:
                    op = c[0] if v else NEG[c[0]]
                    ok = self.cmp(s, op, c[1], c[2])
                elif ty in RANGE:
                    ok = self.refine(s, o, (v, v))
                if ok:
                    yield tgt, s
            s = dict(st)
            ok = True
            if c is not None and vals in ([0], [1]):
                ok = self.cmp(s, c[0] if vals == [0] else NEG[c[0]], c[1], c[2])
            elif ty in RANGE:
                lo, hi = self.ev(s, o)
                while lo in vals:
                    lo += 1
                while hi in vals:
                    hi -= 1
                ok = lo <= hi and self.refine(s, o, (lo, hi))
            if ok:
                yield t[3], s
        elif k == "assert":
            s = dict(st)
            # passing an overflow assertion bounds the result
            o = t[1]
            if isinstance(t[3], str) and t[3].startswith("overflow") and o[0] in ("p", "m") and ("p", o[1][0]) in s:
                ty = t[3].split(":")[-1]
                if ty in RANGE:
                    s[("p", o[1][0])] = meet(s[("p", o[1][0])], RANGE[ty])
            yield t[4], s
        elif k == "call":
            if t[4] is not None:
                s = dict(st)
                self.call(s, t)
                yield t[4], s
        elif k == "goto":
            yield t[1], st
        elif k == "drop":
            yield t[2], st

    def run(self):
        fn = self.fn
        self.before = {0: {}}
        n = {}
        work = [0]
        while work:
            bi = work.pop()
            n[bi] = n.get(bi, 0) + 1
            st = dict(self.before[bi])
            for pl, rv, ln in fn.blocks[bi]["s"]:
                self.assign(st, pl, rv)
            for tgt, s in self.edges(st, fn.blocks[bi]):
                old = self.before.get(tgt)
                if old is None:
                    self.before[tgt] = dict(s)
                    work.append(tgt)
                    continue
                new = {}
                for k, v in old.items():
                    if k not in s:
                        continue
                    if k[0] in ("al", "c"):
                        if s[k] == v:
                            new[k] = v
                        continue
                    w = s[k]
                    j = (min(v[0], w[0]), max(v[1], w[1]))
                    if j != v and n.get(tgt, 0) > 4:
                        continue        # widen: forget
                    new[k] = j
                if new != old:
                    self.before[tgt] = new
                    work.append(tgt)

    def sites(self):
        """(block, stmt index, place, rvalue, line, state) for every reached statement"""
        for bi in sorted(self.before):
            st = dict(self.before[bi])
            for si, (pl, rv, ln) in enumerate(self.fn.blocks[bi]["s"]):
                yield bi, si, pl, rv, ln, st
                self.assign(st, pl, rv)
            yield bi, -1, None, None, None, st


def norm(e):
    """accessor pairs x()/x_mut() denote the same storage"""
    if not isinstance(e, tuple):
        return e[:-4] if isinstance(e, str) and e.endswith("_mut") else e
    return tuple(norm(x) for x in e)


def mentions(e, l):
    if isinstance(e, tuple):
        if e[:1] in (("var",), ("arg",), ("loc",)) and e[-1] == l or e[:1] == ("arg",) and len(e) > 1 and e[1] == l:
            return True
        return any(mentions(x, l) for x in e)
    return False


def related(a, b):
    """one place contains the other"""
    return a == b or inside(a, b) or inside(b, a)


def inside(a, b):
    if not isinstance(b, tuple):
        return False
    return any(a == x or inside(a, x) for x in b)
