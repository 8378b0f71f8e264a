"""The evaluator renders every child of every node exactly once.

For every function (and closure) of the evaluator that is given a node of the document tree,
all paths are enumerated over MIR.  On each path that returns, each child the node can have
under the path's branch facts - followed through structs, enum payloads, options, lists and
tuples - must have been handed exactly once, whole, to a function with the same obligation.
Those obligations are contracts: each function is checked against its own, callers rely on it."""
import re
from common import where
from engine import Explorer, Spec, Budget
from mir import MissingAnchor, fmt, strip_generics, mkfield

CRATE = "asciidork_eval"
SAME = {"iter", "into_iter", "as_slice", "as_deref", "as_ref", "deref", "borrow", "enumerate", "by_ref", "peekable",
        "copied", "cloned", "inspect", "to_vec", "iter_mut", "as_mut", "fuse", "collect"}
PART = {"skip", "take", "filter", "step_by", "skip_while", "take_while", "nth", "last", "first", "split_first",
        "split_last", "get", "rev", "map_while", "split_at", "index", "windows", "chunks", "dedup", "drain", "truncate"}
DRIVE = {"for_each", "fold"}
# attribute carriers and indexes: not children in the document flow
CARRIER = {"AttrList", "MultiAttrList", "ChunkMeta", "Anchor", "DocumentMeta", "TableOfContents", "Xref"}
# blocks whose content is not flow content
LEAF_CONTEXT = {"ThematicBreak", "PageBreak", "TableOfContents", "Comment"}
ORDER = {"Section": ["heading", "blocks"], "ListItem": ["principle", "type_meta", "blocks"],
         "DescList": ["extra_terms", "description"], "Table": ["header_row", "rows", "footer_row"],
         "MultiPartBook": ["preamble", "opening_special_sects", "parts", "closing_special_sects"],
         "Part": ["title", "intro", "sections"], "Sectioned": ["preamble", "sections"],
         "Concealed": ["primary", "secondary", "tertiary"], "QuotedParagraph": ["quote", "attr", "cite"],
         "TocNode": ["title", "children"], "Block": ["meta.title", "content"], "Document": ["title", "content"]}


def strip_ty(t):
    while True:
        t = t.strip()
        m = re.match(r"^&('\w+ )?(mut )?(.*)$", t)
        if m:
            t = m.group(3)
            continue
        m = re.match(r"^(alloc::boxed::Box|bumpalo::boxed::Box|alloc::rc::Rc)<(.*)>$", t)
        if m:
            t = [x for x in split(m.group(2)) if not x.startswith("'")][0]
            continue
        return t


def split(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ")]" or c == ">" and s[i - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, P):
        self.P = P
        self.adts = {a: d for a, d in P.adts.items() if a.startswith("asciidork_ast::")}
        self.short = {a.split("::")[-1]: a for a in self.adts}
        cont = {a for a in self.adts if a.split("::")[-1] in ("InlineNode", "InlineNodes", "Block")}
        if len(cont) < 3:
            raise MissingAnchor("AST node types InlineNode, InlineNodes, Block")
        grew = True
        self.cont = cont
        while grew:
            grew = False
            for a, d in self.adts.items():
                if a in cont or a.split("::")[-1] in CARRIER:
                    continue
                if any(self.content(t) for v in d["variants"] for _, t in self.fields(a, v)):
                    cont.add(a)
                    grew = True

    def fields(self, a, v):
        d = self.P.adts[a]
        cr = a.split("::")[0]

        def q(t):
            return re.sub(r"(?<![\w:'])(?:\w+::)+\w+", lambda m: cr + "::" + m.group(0) if cr + "::" + m.group(0) in self.P.adts else m.group(0), t)
        return [(f[0], q((d["types"][f[1]] if isinstance(f[1], int) else f[1]).replace("r#", ""))) for f in v[2]]

    def content(self, t):
        names = set(re.findall(r"asciidork_ast::[\w:]+", t))
        if any(n.split("::")[-1] in CARRIER for n in names):
            return False
        if re.search(r"HashMap|BTreeMap", t):
            return False
        return any(n in self.cont for n in names)

    def parse(self, t):
        """-> ("opt", T) | ("coll", T) | ("tuple", [T]) | ("adt", path) | None"""
        t = strip_ty(t)
        if t.startswith("("):
            return ("tuple", split(t[1:-1]))
        m = re.match(r"^\[(.*)\]$", t)
        if m:
            return ("coll", m.group(1))
        base = t.split("<")[0]
        args = split(t[len(base) + 1:-1]) if "<" in t else []
        args = [x for x in args if not x.startswith("'")]
        if base == "core::option::Option":
            return ("opt", args[0])
        if base.split("::")[-1] in ("Vec", "SmallVec", "Deq", "VecDeque", "Iter", "IntoIter") and args:
            return ("coll", args[0])
        if base in self.cont:
            if base.split("::")[-1] == "InlineNodes":
                return ("coll", "asciidork_ast::inline::InlineNode")
            return ("adt", base)
        return None


def nrm(e):
    """the node an expression denotes, without references, wrappers and whole-collection iterators"""
    while isinstance(e, tuple):
        if e[0] == "ref":
            e = e[1]
        elif e[0] == "call" and e[1].split("::")[-1] in SAME and len(e[2]) >= 1 and "Backend" not in e[3]:
            e = e[2][0]
        elif e[0] == "adt" and e[1] == "Option" and e[2] == "Some":
            e = e[3][0]
        elif e[0] == "call" and e[1].split("::")[-1] in ("unwrap", "expect", "unwrap_unchecked") and e[2]:
            return ("some", nrm(e[2][0]))
        elif e[0] in ("field", "as", "idx"):
            b = nrm(e[1])
            if e[0] == "field":
                r = mkfield(b, e[2]) if b[0] != "as" or b[1][0] != "adt" else mkfield(b, e[2])
                # the payload of an option is the option's content
                if r[0] == "field" and r[1][0] == "as" and r[1][2] == "Some":
                    return ("some", r[1][1])
                return r
            return (e[0], b) + tuple(e[2:])
        else:
            break
    return e


def inside(p, e):
    """e lies strictly inside p"""
    while isinstance(e, tuple) and e[0] in ("field", "as", "idx", "some", "elem", "call"):
        e = e[2][0] if e[0] == "call" and e[2] else e[1]
        if e == p:
            return True
        if not isinstance(e, tuple):
            return False
    return False


class S(Spec):
    max_states = 150000
    exact_option = True

    def __init__(self, A, root):
        self.A, self.P, self.root = A, A.P, root
        self.ends = []

    def track_local(self, fr, l):
        return self.A.T.content(fr.fn.ty(l))

    def track(self, fr, e, kind):
        if kind == "discr":
            x = self.A.expand(fr, e[1])
            return ("d", x)
        if kind == "bool":
            if e[0] == "isvar":
                return ("isvar", self.A.expand(fr, e[1]), e[2])
            if e[0] == "call" and e[1].split("::")[-1] == "is_empty":
                return ("empty", self.A.expand(fr, e[2][0]))
            n = emptiness(e)
            if n:
                return ("count", self.A.expand(fr, n[0]), n[1], n[2])
            if e[0] == "call" and e[3].startswith("Backend::"):
                return ("backend", e[3], e[2])
            if e[0] in ("field", "arg", "eq", "call"):
                return ("b", e)
        return None

    def assign(self, fr, bi, pl, rv, line, state):
        # which alternative of an or-pattern (or branch) a shared binding stands for
        if len(pl) == 1 and rv[0] in ("use", "ref") and sum(1 for d in fr.fn.defs().get(pl[0], ()) if d[2] != "part") > 1 \
                and self.A.T.content(fr.fn.ty(pl[0])):
            ev, facts = state
            self.A.cur = {k[1]: v for k, v in facts if k[0] == "al"}
            x = self.A.expand(fr, fr.e(fr.fn.sym_rv(rv)))
            facts = frozenset((k, v) for k, v in facts if k != ("al", pl[0])) | {(("al", pl[0]), x)}
            return (ev, facts)
        return state

    def learn(self, facts, key, v):
        d = dict(facts)
        if key[0] == "count":
            # len <op> n: which of the three cases 0, 1, more stay possible
            k2 = ("empty", key[1])
            zero = holds(0, key[2], key[3]) == v
            more = any((holds(n, key[2], key[3]) == v) for n in range(1, 40))
            if zero and more:
                return facts | {(key, v)}
            if k2 in d and d[k2] != zero:
                return None
            return facts | {(k2, zero)}
        if key[0] == "isvar":
            if set(key[2]) <= {"Some", "None"}:
                k2 = ("d", key[1])
                want = frozenset(key[2]) if v else frozenset({"Some", "None"}) - frozenset(key[2])
                if k2 in d:
                    return facts if d[k2] & want else None
                return facts | {(k2, want)}
            return facts | {(key, v)}
        return facts | {(key, v)}

    def descend(self, path):
        # a predicate on a node is decided by what it looks at
        f = self.P.fns.get(path)
        return f is not None and f.crate == CRATE and strip_ty(f.ty(0)) == "bool" and not self.A.contract.get(path)

    def call(self, fr, bi, t, names, args, st):
        nm, tn, f = names
        ev, facts = st
        m = nm.split("::")[-1]
        A = self.A
        A.cur = {k[1]: v for k, v in facts if k[0] == "al"}
        if (tn == "Iterator::next" or m == "next" and args) and not A.cyclic(fr.fn, bi):
            A.deep(fr, nrm(fr.e(fr.fn.sym_call(t))))
            return None
        if tn == "Iterator::next" or m == "next" and args:
            it = args[0]
            l = None
            while it[0] in ("ref",):
                it = it[1]
            src = A.expand(fr, it)
            if src[0] == "tagged":
                raw = fr.fn.sym_call(t)
                src = A.expand(fr, fr.e(raw[2][0])) if raw[0] == "call" and raw[2] else src
            # a new round: what the last one did with its element is judged, then forgotten
            el = ("some", nrm(fr.e(fr.fn.sym_call(t))))
            mine = [e for e in ev if e[1] == el or inside(el, e[1])]
            if any(e == ("loop", src) for e in ev):
                d = dict(facts)
                if d.get(("d", el[1])) == frozenset(["Some"]):
                    self.judge(fr, el, self.A.elem_type(fr, t), mine, facts, t[5])
            elif src[0] == "tagged":
                pass
            elif src[0] == "adt" and src[1] == "Range" and counted(src[3][1]):
                new = ("range", A.expand(fr, counted(src[3][1])))
                ev = ev if new in ev else ev + (new,)
            else:
                ev = ev + (("loop", src),)
            ev = tuple(e for e in ev if e not in mine)
            facts = frozenset((k, v) for k, v in facts if not touches(k, el[1]))
            return [((ev, facts), None)]
        if tn.startswith("Backend::"):
            return None
        cs = self.P.callees(f) if f[0] == "fn" else []
        new = []
        for c in cs:
            if c in A.contract:
                for place in sorted(A.contract[c], key=str):
                    new.append(("lazy" if c in A.unknown else "use", A.expand(fr, A.at(place, args))))
            g = self.P.fns.get(c)
            if g is not None and g.crate == CRATE and g.kind != "Closure":
                for i, a in enumerate(args[:g.argc]):
                    ty = g.ty(i + 1)
                    if (c, (i + 1, ())) not in A.typed and re.match(r"^(impl |[A-Z]\w?$|\w+/#\d+$)", strip_ty(ty)) \
                            and "Backend" not in ty and a[0] not in ("k", "closure", "fn"):
                        new.append(("lazy", A.expand(fr, a)))
        clos = [a for a in args if a[0] == "closure" and a[1] in A.contract]
        fnp = [a for a in args if a[0] == "fn" and a[1] in A.contract]
        if clos or fnp:
            src = args[0]
            for c in clos:
                if A.contract[c[1]]:
                    if m in DRIVE:
                        new += [("use", x) for x in A.sources(fr, src)]
                    elif tn.startswith("Option::"):
                        new.append(("use", A.expand(fr, src)))
                    else:
                        new.append(("lazy", A.expand(fr, src)))
            for c in fnp:
                if A.contract[c[1]] and (m in DRIVE or tn.startswith("Option::")):
                    new += [("use", x) for x in A.sources(fr, src)]
        new = [e for e in new if not (e in ev and (e[0] == "lazy" or indexed(e[1])))]
        if new:
            if len(ev) > 40:
                raise Budget("too many events in " + fr.fn.short)
            return [((ev + tuple(new), facts), None)]
        return None

    def judge(self, fr, place, ty, ev, facts, line):
        if ty is None:
            return
        V = Verify(self.A, ev, dict(facts))
        V.check(place, ty)
        self.A.obl += V.n
        for p in V.problems:
            self.A.problems.setdefault((fr.fn.path, p[0], p[1]), (fr.fn, line, facts, V.undecided))

    def at_return(self, fr, rv, st):
        if fr.fn.path == self.root:
            self.ends.append((st[0], st[1]))
        return st


def emptiness(e):
    """a comparison of a length with a constant -> (collection, op, n)"""
    if e[0] == "eq":
        op, x, y = "Eq", e[1], e[2]
    elif e[0] == "bin" and e[1] in ("Lt", "Le", "Gt", "Ge"):
        op, x, y = e[1], e[2], e[3]
    else:
        return None
    flip = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq"}
    if x[0] == "k":
        x, y, op = y, x, flip[op]
    x = nrm(x)
    if y[0] == "k" and isinstance(y[1], int) and not isinstance(y[1], bool) and x[0] == "call" and x[1].split("::")[-1] == "len" and len(x[2]) == 1:
        return (x[2][0], op, y[1])
    return None


def holds(n, op, m):
    return {"Eq": n == m, "Lt": n < m, "Le": n <= m, "Gt": n > m, "Ge": n >= m}[op]


def touches(k, x):
    if not isinstance(k, tuple):
        return False
    if k == x:
        return True
    return any(touches(y, x) for y in k)


def walked(e, place):
    """an element of place picked by a running index"""
    while isinstance(e, tuple) and e[0] in ("field", "as", "idx", "some", "elem", "call"):
        if e[0] == "idx" and nrm(e[1]) == place:
            return e[2:] and not isinstance(e[2], int) and not (isinstance(e[2], tuple) and e[2][0] == "k")
        if e[0] == "call" and e[1].split("::")[-1] in ("index", "get") and len(e[2]) == 2 and nrm(e[2][0]) == place:
            return e[2][1][0] != "k"
        e = e[2][0] if e[0] == "call" and e[2] else e[1]
    return False


def counted(e):
    e = nrm(e)
    if e[0] == "call" and e[1].split("::")[-1] == "len" and len(e[2]) == 1:
        return e[2][0]
    return None


def indexed(e):
    """an element picked by a running index"""
    while isinstance(e, tuple) and e[0] in ("field", "as", "idx", "some", "elem", "call"):
        if e[0] == "idx" and e[2:] and not isinstance(e[2], int) and not (isinstance(e[2], tuple) and e[2][0] == "k"):
            return True
        if e[0] == "call" and e[1].split("::")[-1] in ("index", "get") and len(e[2]) == 2 and e[2][1][0] != "k":
            return True
        e = e[2][0] if e[0] == "call" and e[2] else e[1]
    return False


class Verify:
    def __init__(self, A, ev, F):
        self.A, self.ev, self.F = A, ev, F
        self.problems, self.n, self.undecided = [], 0, False
        self.gated = any(k[0] == "backend" and k[1].split("::")[-1].startswith("enter_") and v is False for k, v in F.items())

    def pos(self, place):
        return [i for i, e in enumerate(self.ev) if e[1] == place or inside(place, e[1])]

    def check(self, place, ty, ctx=None):
        T = self.A.T
        if not T.content(ty):
            return
        self.n += 1
        hits = [e for e in self.ev if e[1] == place]
        inner = [e for e in self.ev if inside(place, e[1])]
        if ("range", place) in self.ev:
            hits = [e for e in hits if e[0] != "range"]
            if not hits:
                self.undecided = True
                return
        p = T.parse(ty)
        loops = [e for e in hits if e[0] == "loop"]
        hits = [e for e in hits if e[0] != "loop"]
        for e in self.ev:
            if e[0] == "lazy" and (e[1] == place or inside(place, e[1])):
                self.undecided = True
        if hits or loops:
            if len(hits) + len(loops) > 1 or hits and [e for e in inner if e[0] != "loop"]:
                self.problems.append((show(place), "is rendered more than once"))
            for e in loops:
                done = [v for k, v in self.F.items() if k[0] == "d" and k[1][0] == "call" and k[1][1].split("::")[-1] == "next"
                        and self.A.iter_src.get(k[1]) == place]
                if done and done[0] != frozenset(["None"]):
                    self.problems.append((show(place), "is left before its last element was rendered"))
            return
        if p is None:
            if not inner:
                self.drop(place)
            return
        if p[0] == "opt":
            d = self.F.get(("d", place))
            if d == frozenset(["None"]):
                return
            if d is None and not inner:
                return self.drop(place)
            return self.check(("some", place), p[1])
        if p[0] == "coll":
            if self.F.get(("empty", place)) is True:
                return
            first = ("call", "[T]::first")
            for k, v in self.F.items():
                if k[0] == "d" and k[1][0] == "call" and k[1][1].split("::")[-1] in ("first", "last", "next", "next_back", "peek") \
                        and (nrm(k[1][2][0]) == place or self.A.iter_src.get(k[1]) == place) and v == frozenset(["None"]):
                    return
            if inner:
                if any(walked(e[1], place) for e in inner):
                    self.undecided = True
                self.problems.append((show(place), "is rendered only in part"))
                return
            return self.drop(place)
        if p[0] == "tuple":
            for i, t in enumerate(p[1]):
                self.check(mkfield(place, str(i)), t)
            return
        a = p[1]
        d = T.P.adts[a]
        name = a.split("::")[-1]
        if d["enum"]:
            vs = self.F.get(("d", place))
            vs = [v for v in d["variants"] if vs is None or v[0] in vs]
            if not inner and self.F.get(("d", place)) is None:
                if name == "ListItemTypeMeta":
                    return      # lists other than description lists carry no children here
                return self.drop(place)
            for v in vs:
                if v[0] in CARRIER:
                    continue
                self.fields(("as", place, v[0]), v[0], T.fields(a, v))
            return
        self.fields(place, name, T.fields(a, d["variants"][0]))

    def fields(self, base, name, fs):
        places = []
        for n, t in fs:
            if name == "DocTitle" and n == "subtitle":
                continue
            if name == "Document" and n in ("docinfo", "header", "toc", "anchors"):
                continue
            if name == "Block" and n == "content":
                c = self.F.get(("d", mkfield(base, "context")))
                if c is not None and c <= LEAF_CONTEXT:
                    continue
            pl = mkfield(base, n)
            places.append((n, pl))
            self.check(pl, t)
        if name == "Document":
            pl = ("call", "Document::title", (base,), "Document::title")
            places.append(("title", pl))
            self.check(pl, "core::option::Option<&asciidork_ast::document::DocTitle<'_>>")
        if name == "Block":
            pl = ("call", "ChunkMeta::title", (mkfield(base, "meta"),), "ChunkMeta::title")
            places.append(("meta.title", pl))
            self.check(pl, "core::option::Option<&asciidork_ast::inline_nodes::InlineNodes<'_>>")
        order = ORDER.get(name)
        if order:
            known = dict(places)
            last = -1
            lastn = None
            for n in order:
                ix = self.pos(known[n]) if n in known else []
                if ix:
                    if min(ix) < last:
                        self.problems.append((show(known[n]), "is rendered before `%s`, which precedes it in the document" % lastn))
                    last, lastn = max(ix), n

    def drop(self, place):
        if self.gated:
            return
        self.problems.append((show(place), "is not rendered"))


def show(e):
    if e[0] == "some":
        return show(e[1])
    if e[0] == "field":
        return show(e[1]) + "." + str(e[2])
    if e[0] == "as":
        return show(e[1]) + "@" + str(e[2])
    if e[0] == "elem":
        return "each of " + show(e[1])
    if e[0] == "arg":
        return e[2]
    if e[0] == "call" and e[1].split("::")[-1] == "next":
        return "the next of " + fmt(e[2][0])
    if e[0] == "call" and len(e[2]) == 1:
        return show(e[2][0]) + "." + e[1].split("::")[-1] + "()"
    return fmt(e)


class Analysis:
    def __init__(self, P):
        self.P = P
        self.T = Types(P)
        self.contract = {}
        self.unknown = set()
        self.cyc = {}
        self.iter_src = {}
        self.cur = {}
        self.problems, self.obl = {}, 0

    def expand(self, fr, e):
        """normal form of an expression: the node it denotes"""
        e = nrm(e)
        n = 0
        # a loop variable: what it iterates over
        while e[0] == "var" and n < 4:
            l = e[2]
            if l in self.cur:
                e = self.cur[l]
                continue
            ds = [d for d in fr.fn.defs().get(l, ()) if d[2] != "part"]
            if len(ds) != 1:
                break
            x = fr.fn.sym_rv(ds[0][3]) if ds[0][2] == "rv" else fr.fn.sym_call(ds[0][3])
            x = nrm(fr.e(x))
            if touches(x, e):
                break
            e = x
            n += 1
        return self.deep(fr, e)

    def deep(self, fr, e):
        if isinstance(e, tuple) and e and e[0] in ("field", "as", "some", "idx"):
            b = self.deep(fr, e[1])
            if e[0] == "field":
                return mkfield(b, e[2])
            return (e[0], b) + tuple(e[2:])
        if isinstance(e, tuple) and e and e[0] == "var" and len(e) >= 3:
            ds = [d for d in fr.fn.defs().get(e[2], ()) if d[2] != "part"]
            if len(ds) == 1 and ds[0][2] == "rv" and ds[0][3][0] in ("agg", "use", "ref"):
                x = nrm(fr.e(fr.fn.sym_rv(ds[0][3])))
                if not touches(x, e):
                    return self.deep(fr, x)
        if isinstance(e, tuple) and e and e[0] == "call" and e[1].split("::")[-1] == "next" and e not in self.iter_src:
            self.iter_src[e] = self.expand(fr, e[2][0]) if e[2] else None
        if isinstance(e, tuple) and e and e[0] == "call" and e[2]:
            m = e[1].split("::")[-1]
            if m in ("title", "first", "last"):
                return (e[0], e[1], (self.deep(fr, nrm(e[2][0])),) + tuple(e[2][1:]), e[3])
        return e

    def cyclic(self, fn, bi):
        k = (fn.path, bi)
        if k not in self.cyc:
            seen, todo = set(), list(fn.succs(bi))
            while todo:
                b = todo.pop()
                if b not in seen:
                    seen.add(b)
                    todo += fn.succs(b)
            self.cyc[k] = bi in seen
        return self.cyc[k]

    def elem_type(self, fr, t):
        ty = fr.fn.ty(t[3][0]) if len(t[3]) == 1 else ""
        p = self.T.parse(ty) if ty else None
        return p[1] if p and p[0] == "opt" else None

    def sources(self, fr, e):
        """collections a driver walks completely"""
        e2 = nrm(e)
        if e2[0] == "call" and e2[1].split("::")[-1] == "chain" and len(e2[2]) == 2:
            return self.sources(fr, e2[2][0]) + self.sources(fr, e2[2][1])
        if e2[0] == "call" and e2[1].split("::")[-1] == "flatten":
            return self.sources(fr, e2[2][0])
        return [self.expand(fr, e2)]

    def at(self, place, args):
        i, path = place
        e = args[i - 1] if i - 1 < len(args) else ("?",)
        e = nrm(e)
        for f in path:
            e = nrm(mkfield(e, f)) if f != "title()" else ("call", "Document::title", (e,), "Document::title")
        return e


def run(P, R, tier):
    A = Analysis(P)
    T = A.T
    fns = [f for f in P.fns.values() if f.crate == CRATE and not f.promoted]
    if not fns:
        raise MissingAnchor("crate " + CRATE)
    types = {}
    for f in fns:
        for i in range(1, f.argc + 1):
            ty = f.ty(i)
            s = strip_ty(ty)
            if f.kind == "Closure" and i == 1:
                continue
            if T.content(ty) or "TocNode" in ty:
                types[(f.path, (i, ()))] = ty
            else:
                # a context that carries the document
                base = strip_generics(s)
                for a, d in P.adts.items():
                    if a.split("::")[-1] == base.split("::")[-1] and a.startswith(CRATE):
                        for n, t in T.fields(a, d["variants"][0]):
                            if strip_generics(strip_ty(t)).endswith("::Document"):
                                types[(f.path, (i, (n, "content")))] = "asciidork_ast::doc_content::DocContent<'_>"
                                types[(f.path, (i, (n, "title()")))] = "core::option::Option<&asciidork_ast::document::DocTitle<'_>>"
    A.typed = types
    toc = [a for a in T.adts if a.endswith("::TocNode")]
    for a in toc:
        T.cont.add(a)
    for (p, place) in types:
        if place[1] == ():
            A.contract.setdefault(p, set()).add(place)
    for f in fns:
        A.contract.setdefault(f.path, set())
    # greatest fixpoint: drop the contracts of parameters a function never renders
    while True:
        A.problems, A.obl, A.iter_src = {}, 0, {}
        changed = False
        per = {}
        npaths = 0
        for f in sorted(fns, key=lambda f: f.path):
            if not any(p == f.path for p, _ in types):
                continue
            sp = S(A, f.path)
            ex = Explorer(sp, P)
            try:
                ex.run(f, tuple(("arg", i + 1, f.lname(i + 1) or "_%d" % (i + 1)) for i in range(f.argc)), ((), frozenset()))
            except Budget as e:
                A.unknown.add(f.path)
                R.assumption("left undecided: %s" % e)
                continue
            per[f.path] = sp.ends
            npaths += len(sp.ends)
            fr = None
            for place in sorted(A.contract[f.path], key=str):
                root = A.at(place, tuple(("arg", i + 1, f.lname(i + 1) or "_%d" % (i + 1)) for i in range(f.argc)))
                used = any(e[1] == root or inside(root, e[1]) for ev, _ in sp.ends for e in ev)
                if not used:
                    A.contract[f.path].discard(place)
                    changed = True
                    continue
        if not changed:
            # a context that carries the document: obliged only where its content is reached
            for (p, place) in types:
                if place[1] != () and p in per and place not in A.contract[p]:
                    f = P.fns[p]
                    root = A.at(place, tuple(("arg", i + 1, f.lname(i + 1) or "_%d" % (i + 1)) for i in range(f.argc)))
                    if any(e[1] == root or inside(root, e[1]) for ev, _ in per[p] for e in ev):
                        A.contract[p].add(place)
                        changed = True
        if not changed:
            break
    n = 0
    for f in sorted(fns, key=lambda f: f.path):
        if f.path not in per:
            continue
        for place in sorted(A.contract[f.path], key=str):
            n += 1
            root = A.at(place, tuple(("arg", i + 1, f.lname(i + 1) or "_%d" % (i + 1)) for i in range(f.argc)))
            for ev, facts in set(per[f.path]):
                V = Verify(A, ev, dict(facts))
                V.check(root, types[(f.path, place)])
                A.obl += V.n
                for p in V.problems:
                    A.problems.setdefault((f.path, p[0], p[1]), (f, f.line, facts, V.undecided))
            R.ok("%s renders its %s completely" % (f.short, show(root)))
    for (path, pl, msg), (f, line, facts, und) in sorted(A.problems.items()):
        if und:
            R.assumption("left undecided: %s in %s" % (pl, f.short))
            continue
        R.bad("%s:%s:%s" % (f.short, pl, msg), "%s: %s: `%s` %s on the path %s" % (where(f, line), f.short, pl, msg, describe(facts)))
    # the whole document
    entry = [f for f in fns if f.kind != "Closure" and f.pub and any("Document" in f.ty(i) for i in range(1, f.argc + 1))]
    if not entry:
        raise MissingAnchor("the evaluator's entry points taking a Document")
    for f in entry:
        if not any(p[1] == () for p in A.contract[f.path]):
            R.bad("%s:document" % f.short, "%s: %s does not render the document it is given" % (where(f, f.line), f.short))
        else:
            R.ok("%s renders its document" % f.short)
    R.count("functions and closures with a rendering contract", n)
    R.count("paths", npaths)
    R.count("child obligations on paths", A.obl)
    R.floor("functions and closures with a rendering contract", 10)
    R.floor("paths", 20)
    R.rule("on every returning path each child of the node is handed on exactly once, whole, unless the path knows it is absent or empty")
    R.rule("children are handed on in document order")
    R.assumption("attribute lists, anchors and cross-reference texts are not children in the document flow")


def describe(facts):
    out = []
    for k, v in sorted(facts, key=str):
        if k[0] == "d":
            out.append("%s is %s" % (show(k[1]), "/".join(sorted(v))))
        elif k[0] == "empty":
            out.append("%s is %sempty" % (show(k[1]), "" if v else "not "))
    return "[" + ", ".join(out)[:300] + "]"
