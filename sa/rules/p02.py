"""No line of the source is lost.

Blocks of lines (`ContiguousLines`, a peeked section) are linear values over the parser's MIR: once taken from the
source, on every path that goes on without an error they are parsed, handed on, given back - or known to be empty."""
import re
from common import where
from engine import Explorer
from mir import short, fmt
from rules import p03

CRATE = "asciidork_parser"
META = re.compile(r"\b(ChunkMeta|AttrList|BlockMetadata|SourceLocation|MultiSourceLocation|SourceString|AttrDef)\b")
NODE = re.compile(r"asciidork_ast::[a-z_:]*[A-Z]|InlineNodes")
PEEK = ("current", "current_mut", "first", "last", "last_mut", "consume_current", "pop", "consume_current_token", "current_token",
        "consume_current_line_with_token", "pop_front")


def carries(t):
    if t.startswith("&") or "fn(" in t[:4] or "{closure" in t:
        return False
    b = t.split("<")[0]
    if b.endswith(("Result", "ControlFlow", "Iter", "IterMut", "Ref", "RefMut", "PhantomData", "Parser")):
        return False
    return bool(re.search(r"\b(ContiguousLines|PeekedSection)<", t))


def own(P, path):
    return P.fns[path].file.endswith("contiguous_lines.rs")


_PARSES = {}


def parses(P, path, i, seen=()):
    """the callee turns its i-th parameter (a `&mut` block of lines) into nodes of the tree, itself or through a callee"""
    k = (path, i)
    if k in _PARSES or k in seen:
        return _PARSES.get(k, False)
    f = P.fns[path]
    ret = META.sub("", f.ty(0))
    r = not own(P, path) and bool(NODE.search(re.sub(r"asciidork_ast::[a-z_:]*\b(?=[<>,)]|$)", "", ret)))
    if not r and not own(P, path):
        for bi, t in f.calls():
            if t[1][0] != "fn":
                continue
            for j, o in enumerate(t[2]):
                if any(parses(P, c, j + 1, seen + (k,)) for c in P.callees(t[1])) and p03.mentions(f.sym_op(o), i):
                    r = True
    _PARSES[k] = r
    return r


def strip(e):
    if not isinstance(e, tuple):
        return e
    return tuple(strip(x) for x in (e[:3] if e and e[0] == "var" else e))


_REW = {}


def rewinds(P, path, depth=0):
    """the function sets the lexer's position back into text already read"""
    if path.split("::")[-1] == "set_pos" and "lexer" in P.fns[path].file:
        return True
    if path not in _REW:
        _REW[path] = False
        f = P.fns[path]
        if depth < 2 and f.crate == CRATE and "lexer" not in f.file and len(f.blocks) < 30:
            _REW[path] = any(rewinds(P, c, depth + 1) for _, t in f.calls() if t[1][0] == "fn" for c in P.callees(t[1]))
    return _REW[path]


class S(p03.S):
    def __init__(self, P, fn, diag):
        self.P, self.fn, self.diag, self.ev, self.owed, self.handled = P, fn, diag, [], set(), 0
        self.alias = {}        # what a lent block of lines is called in expressions -> the local
        for bi, t in fn.calls():
            for o in t[2]:
                l = self.borrowed(fn, o)
                if l is not None and fn.ty(o[1][0]).startswith("&"):
                    self.alias.setdefault(strip(fn.sym_op(o)), set()).add(l)

    def root_local(self, e):
        l = super().root_local(e)
        if l is None and len(self.alias.get(strip(e), ())) == 1:
            l = next(iter(self.alias[strip(e)]))
        return l

    def track(self, fr, e, kind):
        if kind == "bool" and e[0] == "call" and e[2]:
            n = e[1].split("::")[-1]
            l = self.root_local(e[2][0])
            if l is not None and n in ("is_empty", "discard_until"):
                return (n, l)
        if kind == "bool" and e[0] == "isvar" and len(e[2]) == 1 and e[1][0] == "call" and e[1][2] and e[1][1].split("::")[-1] in PEEK:
            l = self.root_local(e[1][2][0])
            if l is not None:
                return ("has" if e[2][0] == "Some" else "is_empty", l)
        if kind == "bool" and (e[0] == "eq" and e[2] == ("k", 0) and e[1] or e[0] == "bin" and e[1] in ("Eq", "Gt", "Ne") and
                               e[3] == ("k", 0) and e[2]):
            c = e[1] if e[0] == "eq" else e[2]
            if c[0] == "call" and c[2] and c[1].split("::")[-1] == "len":
                l = self.root_local(c[2][0])
                if l is not None:
                    return ("is_empty" if e[0] == "eq" or e[1] == "Eq" else "has", l)
        if kind == "discr" and e[1][0] == "call" and e[1][2] and e[1][1].split("::")[-1] in PEEK:
            l = self.root_local(e[1][2][0])
            if l is not None:
                return ("cur", l)
        return None

    def forget(self, st, l, keep=()):
        return st[0], frozenset(x for x in st[1] if not (isinstance(x[0], tuple) and x[0][1] == l and x[0][0] not in keep))

    def assign(self, fr, bi, pl, rv, line, st):
        if rv[0] != "dead" and len(pl) == 1 and pl[0] in self.diag:
            st = self.forget(st, pl[0])
        return super().assign(fr, bi, pl, rv, line, st)

    def call(self, fr, bi, t, names, args, st):
        n, tn, f = names
        if tn == "FromResidual::from_residual":      # an error is being returned
            return [((frozenset(), st[1]), None)]
        cal = self.P.callees(f)
        if cal and any(rewinds(self.P, c) for c in cal):      # the source itself is read again from there
            st = (frozenset(), st[1])
        for i, o in enumerate(t[2]):
            if o[0] == "m" and len(o[1]) == 1 and o[1][0] in st[0] and f[1] in ("core::mem::drop", "core::mem::forget", "std::mem::drop", "std::mem::forget"):
                self.lost(fr, t[5], o[1][0], st)
            st = self.live(st, o)
            l = self.borrowed(fr.fn, o)
            if l is not None:
                self.handled += 1
                if not cal and tn in ("Option::take", "mem::take", "mem::replace", "Option::replace") and i == 0:
                    st = self.forget((st[0] - {l}, st[1]), l)      # taken out: the result is followed instead
                    continue
                if cal and all(parses(self.P, c, i + 1) for c in cal) and self.assembled(fr.fn, l):
                    st = (st[0] - {l}, st[1])
                elif cal and self.mutable(fr.fn, o) and not (n.split("::")[-1] in ("restore_if_nonempty", "push", "extend")):
                    st = self.forget(st, l, ("is_empty",))     # what was known to be empty stays so
                elif self.mutable(fr.fn, o):
                    st = self.forget(st, l)
        if len(t[3]) == 1 and t[3][0] in self.diag:
            st = self.forget(self.live(st, None, t[3][0]), t[3][0])
        return [(st, None)]

    def assembled(self, fn, l, depth=0):
        """the local was put together here from tokens of lines already taken (`into_lines`, `ContiguousLines::new`)"""
        ds = fn.defs().get(l, [])
        if not ds or depth > 4:
            return False
        for d in ds:
            if d[2] == "call":
                n = short(d[3][1][1]) if d[3][1][0] == "fn" else ""
                split = any(any(re.match(r"&mut .*\bContiguousLines<", self.P.fns[c].ty(k + 1)) for k in range(self.P.fns[c].argc))
                            for c in self.P.callees(d[3][1]))      # split off from lines that live on elsewhere
                if n.split("::")[-1] not in ("into_lines", "new", "empty", "with_capacity") and not split:
                    return False
            elif d[2] == "rv" and d[3][0] == "use" and d[3][1][0] in ("p", "m") and len(d[3][1][1]) == 1:
                if not self.assembled(fn, d[3][1][1][0], depth + 1):
                    return False
            elif d[2] != "part":
                return False
        return True

    def mutable(self, fn, o):
        return o[0] in ("p", "m") and fn.ty(o[1][0]).startswith("&mut")

    def drop(self, fr, bi, t, st):
        l = t[1][0]
        if len(t[1]) == 1 and l in st[0]:
            tag = fr.up.get(l) if fr.up else None
            if tag is not None and Explorer.tag(tag) == "None":
                return st
            self.lost(fr, fr.fn.line, l, st)
        return st

    def lost(self, fr, ln, l, st):
        facts = dict(st[1])
        if facts.get(("is_empty", l)) is True or facts.get(("discard_until", l)) is False or \
                facts.get(("has", l)) is False or \
                facts.get(("cur", l)) == frozenset(["None"]):
            return
        self.ev.append((ln, "drops `%s: %s`, lines of the source that were neither parsed nor given back" % (
            fr.fn.lname(l) or "_%d" % l, p03.short_ty(fr.fn.ty(l)))))


def run(P, R, tier):
    R.rule("linear values: a block of lines taken from the source (ContiguousLines, PeekedSection, Option of them) is, on every path that "
           "does not return an error, moved on (given back, stored, passed by value), lent to a function that makes nodes of it, or "
           "known to be empty when it is dropped")
    n = 0
    for fn in P.bodies(consts=False):
        if fn.crate != CRATE or fn.file.endswith("contiguous_lines.rs"):
            continue
        diag = {l for l in range(1, len(fn.locals)) if carries(fn.ty(l))}
        if not diag:
            continue
        n += 1
        s = S(P, fn, diag)
        st = frozenset(l for l in diag if 1 <= l <= fn.argc)
        ex = Explorer(s, P)
        ex.run(fn, [("arg", i + 1, fn.lname(i + 1) or "_%d" % i) for i in range(fn.argc)], (st, frozenset()))
        R.count("path states explored", ex.n_states)
        R.count("blocks of lines followed", len(diag))
        R.count("times a block of lines is lent", s.handled)
        for ln, m in sorted(set(s.ev)):
            R.bad("lost:%s:%s" % (fn.short, m.split("`")[1].split(":")[0]), "%s %s" % (where(fn, ln), m))
        if not s.ev:
            R.ok("%s: %d blocks of lines, none dropped unread" % (fn.short, len(diag)))
    slots(P, R)
    R.count("functions that hold blocks of lines", n)
    R.floor("functions that hold blocks of lines", 25)


def slots(P, R):
    """the slot that holds lines given back is never emptied by overwriting it"""
    R.rule("a field that stores a block of lines to be read next is emptied only by taking the lines out, never by assigning None")
    fields, clears = {}, []
    for fn in P.bodies(consts=False):
        if fn.crate != CRATE or fn.file.endswith("contiguous_lines.rs"):
            continue
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if len(pl) < 2 or not isinstance(pl[-1], (list, tuple)) or pl[-1][0] != "f":
                    continue
                f = pl[-1][1]
                if rv[0] == "use" and rv[1][0] in ("p", "m") and len(rv[1][1]) == 1 and carries(fn.ty(rv[1][1][0])):
                    fields.setdefault(f, []).append(where(fn, ln))
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("Option"):
                    if rv[1][2] == "Some" and any(o[0] in ("p", "m") and carries(fn.ty(o[1][0])) for o in rv[2]):
                        fields.setdefault(f, []).append(where(fn, ln))
                e = fn.sym_rv(rv)
                if e == ("variant", "Option", "None"):
                    clears.append((f, fn, ln))
    for f in sorted(fields):
        R.count("places that fill a slot of lines to be read next", len(fields[f]))
        bad = [(fn, ln) for g, fn, ln in clears if g == f]
        for fn, ln in bad:
            R.bad("slot:%s:%s" % (f, fn.short), "%s assigns None to `%s`: lines that were given back are dropped" % (where(fn, ln), f))
        if not bad:
            R.ok("slot `%s`: filled at %s, never overwritten with None" % (f, ", ".join(fields[f])))
    R.floor("places that fill a slot of lines to be read next", 1)
