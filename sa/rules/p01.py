"""Bytes fetched from an include resolver become document source only as valid UTF-8.

1. Typestate of the byte buffer in every function that calls the include
   resolver: filled -> raw; a successful `from_utf8` of that buffer, or refilling
   it (after `clear`) from a `str`, makes it valid; anything that writes unknown
   bytes or cuts at a byte count makes it raw again.  Handing it to the lexer
   while raw is a violation.  Helpers are inlined, their Err results followed.
2. Provenance of every byte vector handed to a source constructor.
3. Inventory of unchecked byte/str conversions, each with its justification."""
import re
from common import where, expr_any
from engine import Explorer, Spec
from mir import short, fmt, MissingAnchor

CONSTR = ("SourceLexer::new", "RootLexer::new", "RootLexer::push_source", "Parser::new", "Parser::cell_parser")
CUT = ("drain", "truncate", "remove", "swap_remove", "split_off", "retain", "set_len", "insert", "pop", "append",
       "resize", "extend", "extend_from_slice", "copy_from_slice", "drain_filter", "retain_mut", "dedup", "sort", "reverse")


def from_str(e, d=0):
    """byte slice that is the content of a str/String"""
    if not isinstance(e, tuple) or d > 8 or not e:
        return False
    if e[0] == "call":
        n = e[1].split("::")[-1]
        if n in ("as_bytes", "into_bytes", "bytes", "as_str"):
            return True
        return any(from_str(a, d + 1) for a in e[2] if isinstance(a, tuple))
    if e[0] in ("ref", "field", "as", "elem"):
        return from_str(e[1], d + 1)
    return False


def bytes_ty(t):
    return "Vec<" in t and "u8" in t or "[u8]" in t


class S(Spec):
    max_states = 400000

    def __init__(self, P, root, fetchers):
        self.P, self.root, self.fetchers = P, root, fetchers
        self.fetch_names = {P.fns[x].short for x in fetchers if bytes_ty(P.fns[x].ty(0))}
        self.moved = {}
        self.errs, self.sinks, self.n = [], 0, {"resolve": 0, "validate": 0, "edit": 0}
        self.buf = None

    def descend(self, path):
        fn = self.P.fns.get(path)
        if fn is None or fn.crate != "asciidork_parser":
            return False
        if fn.kind == "Closure":
            return False
        return (any(bytes_ty(fn.ty(i + 1)) for i in range(fn.argc)) or path in self.fetchers) and \
            not fn.short.endswith(CONSTR)

    def interesting(self, fn, bi, b):
        t = b["t"]
        return t[0] == "call" or any(s[0][0] == 0 for s in b["s"])

    def isbuf(self, e):
        return e == self.buf or bool(self.fetch_names) and self.fetched(e)

    def fetched(self, e, d=0):
        """the buffer that a fetching helper returned (inside Result/Option wrappers, or moved into a local)"""
        while e and d < 12:
            d += 1
            if e[0] in ("as", "field", "ref"):
                e = e[1]
            elif e[0] == "call" and e[1] in self.fetch_names:
                return True
            elif e[0] == "call" and e[2] and e[1].split("::")[-1] in (
                    "branch", "ok", "unwrap", "expect", "ok_or", "ok_or_else", "map_err", "unwrap_or_default", "take",
                    "deref", "deref_mut", "as_mut", "as_ref", "from_residual"):
                e = e[2][0]
            elif e[0] == "var" and len(e) > 3:
                k = (e[3], e[2])
                if k not in self.moved:
                    self.moved[k] = False
                    self.moved[k] = any(self.fetched(f.sym_rv(rv), d) for f in self.P.by_short.get(e[3], ())
                                        for b in f.blocks for pl, rv, ln in b["s"] if pl == [e[2]]) or any(
                        self.fetched(f.sym_call(b["t"]), d) for f in self.P.by_short.get(e[3], ())
                        for b in f.blocks if b["t"][0] == "call" and b["t"][3] == [e[2]] and b["t"][1][0] == "fn")
                return self.moved[k]
            else:
                return False
        return False

    def call(self, fr, bi, t, names, args, st):
        nm, tn, f = names
        auto, facts = st
        m = tn.split("::")[-1]
        if tn.endswith("IncludeResolver::resolve"):
            self.n["resolve"] += 1
            self.buf = args[2]
            return [(("raw", facts), ("tagged", "Result", "Ok")), (("raw", facts), ("tagged", "Result", "Err"))]
        if self.buf is None:
            return None
        if any(nm.endswith(c) for c in CONSTR):
            if any(self.isbuf(a) for a in args):
                self.sinks += 1
                if auto != "valid":
                    self.errs.append((fr.fn, t[5], "raw bytes of an included file reach `%s` on a path without a successful UTF-8 check" % nm))
            return [(st, None)]
        if m == "from_utf8" and args and self.isbuf(args[0]):
            self.n["validate"] += 1
            return [(("valid", facts), ("tagged", "Result", "Ok")), ((auto, facts), ("tagged", "Result", "Err"))]
        if m in ("from_utf8_unchecked",) and args and self.isbuf(args[0]) and auto != "valid":
            self.errs.append((fr.fn, t[5], "unvalidated include bytes are converted to str unchecked"))
        if args and self.isbuf(args[0]) and f[0] == "fn" and not self.P.callees(f):
            if m == "clear":
                return [(("valid", facts), None)]
            if m == "push":
                v = args[1]
                if v[0] == "k" and isinstance(v[1], int) and v[1] < 128:
                    return None
                return [(("raw", facts), None)]
            if m in ("extend_from_slice", "extend", "extend_from_slice_copy"):
                self.n["edit"] += 1
                return None if auto == "valid" and from_str(args[1]) else [(("raw", facts), None)]
            if m in CUT or m in ("as_mut_slice", "index_mut", "deref_mut", "as_mut_ptr", "iter_mut"):
                if m in ("deref_mut", "as_mut_slice", "iter_mut", "index_mut", "as_mut_ptr") and auto != "valid":
                    return None
                self.n["edit"] += 1
                return [(("raw", facts), None)]
        if m in ("swap", "replace") and args and any(self.isbuf(a) for a in args[:2]):
            self.n["edit"] += 1
            return None
        return None


def run(P, R, tier):
    R.rule("typestate raw/valid of every include buffer, callees inlined")
    ca = {}
    sites = []
    for fn in P.fns.values():
        for bi, t in ((i, b["t"]) for i, b in enumerate(fn.blocks)):
            if t[0] != "call" or t[1][0] != "fn":
                continue
            tn = short(t[1][1])
            if tn.endswith("IncludeResolver::resolve") and fn.crate == "asciidork_parser":
                sites.append(fn)
    if not sites:
        raise MissingAnchor("calls of IncludeResolver::resolve in the parser")
    tsinks = 0
    validated_fns = set()
    # helpers that only fetch: the buffer is their caller's (or is returned to it)
    fetchers = set()
    work = list({f.path: f for f in sites}.values())
    roots = {f.path: f for f in work}
    while work:
        f = work.pop()
        if f.path in fetchers or f.kind == "Closure":
            continue
        if bytes_ty(f.ty(0)) or any(bytes_ty(f.ty(i + 1)) and f.ty(i + 1).startswith("&mut") for i in range(f.argc)):
            fetchers.add(f.path)
            for c in P.rev().get(f.path, ()):
                if c in P.fns and P.fns[c].crate == "asciidork_parser":
                    roots[c] = P.fns[c]
                    work.append(P.fns[c])
    for fn in roots.values():
        sp = S(P, fn, fetchers)
        ex = Explorer(sp, P)
        args = [("arg", i + 1, fn.lname(i + 1) or "_%d" % (i + 1)) for i in range(fn.argc)]
        ex.run(fn, args, ("none", frozenset()))
        validated_fns.add(fn.path)
        tsinks += sp.sinks
        R.count("path states explored", ex.n_states)
        for f2, line, text in sp.errs:
            R.bad("%s:%s" % (fn.short, text.split(" on ")[0]), "%s: %s (resolved in %s)" % (where(f2, line), text, fn.short))
        if not sp.errs:
            R.ok("%s: include bytes are validated before every use as source (%d use(s), %d validation state(s))" % (
                fn.short, sp.sinks, sp.n["validate"]))
        R.count("include buffers", 1)
        R.count("uses as document source", 1 if sp.sinks else 0)
    R.floor("include buffers", 1)
    R.floor("uses as document source", 1)

    surgery(P, R)
    R.rule("provenance of bytes at source constructors")
    for fn in P.fns.values():
        for bi, b in enumerate(fn.blocks):
            t = b["t"]
            if t[0] != "call" or t[1][0] != "fn":
                continue
            nm = short(t[1][2] or t[1][1])
            if not any(nm == c or nm.endswith("::" + c) for c in CONSTR) or fn.crate == "test_utils":
                continue
            e = None
            for o in t[2]:
                if o[0] in ("p", "m") and len(o[1]) == 1 and "Vec<" in fn.ty(o[1][0]) and "u8" in fn.ty(o[1][0]) and "&" not in fn.ty(o[1][0])[:1]:
                    e = fn.sym_op(o)
                    break
            if e is None:
                continue
            R.count("source constructor calls", 1)
            ok = justify(P, fn, e, validated_fns)
            R.check(ok, "%s:%s" % (fn.short, nm), "%s: bytes handed to %s: %s" % (where(fn, t[5]), nm, ok or
                    "`%s` is neither text bytes nor a validated include buffer" % fmt(e)[:80]))
    R.floor("source constructor calls", 2)
    # into_bytes itself only concatenates token text
    ib = P.by_short.get("Line::into_bytes")
    if ib:
        for f2 in ib:
            for b in f2.blocks:
                t = b["t"]
                if t[0] == "call" and t[1][0] == "fn" and t[1][1].split("::")[-1] in ("push", "extend", "extend_from_slice"):
                    e = f2.sym_op(t[2][1])
                    R.check(from_str(e) or e[0] == "k" and isinstance(e[1], int) and e[1] < 128, "into_bytes",
                            "%s: token bytes are copied whole (%s)" % (where(f2, t[5]), fmt(e)[:60]))

    R.rule("unchecked conversions between bytes and str")
    for fn in P.fns.values():
        if fn.crate in ("test_utils", "tck"):
            continue
        for bi, b in enumerate(fn.blocks):
            t = b["t"]
            if t[0] != "call" or t[1][0] != "fn":
                continue
            m = t[1][1].split("::")[-1]
            if m not in ("from_utf8_unchecked", "from_utf8_unchecked_mut", "as_mut_vec", "as_bytes_mut", "from_utf8_unchecked_in",
                         "get_unchecked", "get_unchecked_mut", "from_raw_parts", "from_raw_parts_in", "transmute", "as_bytes_mut_ptr"):
                continue
            if t[1][1].startswith("asciidork"):
                continue
            R.count("unchecked conversions", 1)
            e = fn.sym_op(t[2][0])
            why = None
            if m == "from_utf8_unchecked":
                if expr_any(e, lambda x: x[0] == "call" and x[1] == "Iterator::filter" and any(
                        isinstance(a, tuple) and a and "is_ascii" in fmt(a) for a in x[2])):
                    why = "only ASCII bytes were collected"
            elif m == "as_mut_vec":
                why = ascii_overwrite(P, fn, bi, t)
            R.check(why, "%s:%s" % (fn.short, m), "%s: `%s` %s" % (where(fn, t[5]), m, why or "without a recognised ASCII justification: " + fmt(e)[:80]))
    R.assumption("bytes given to Parser::new by the host are UTF-8 (from_str guarantees it)")


def surgery(P, R):
    """functions that rewrite a validated byte buffer cut it at ASCII bytes only: a multi-byte character
    is copied or dropped as a whole because no byte of it is ever singled out"""
    R.rule("byte surgery: functions that rewrite an include buffer single out bytes below 128 only")
    own = [f for f in P.bodies() if f.crate == "asciidork_parser" and "::tests" not in f.path and f.kind != "Closure" and any(
        f.ty(i + 1).startswith("&") and "mut " in f.ty(i + 1)[:12] and "Vec<" in f.ty(i + 1) and re.search(r"\bu8\b", f.ty(i + 1))
        for i in range(f.argc))]
    def validates(f, d=0):
        for bi, t in f.calls():
            if t[1][0] == "fn":
                if t[1][1].split("::")[-1] in ("from_utf8", "from_utf16_in", "from_utf16"):
                    return True
                if d < 3 and any(P.fns[c].crate == f.crate and validates(P.fns[c], d + 1) for c in P.callees(t[1])):
                    return True
        return False
    # the byte order mark is looked at before the text is decoded
    own = [f for f in own if not validates(f)]
    names = {f.path for f in own}
    todo = own + [f for f in P.bodies() if f.kind == "Closure" and any(f.path.startswith(n + "::{closure") for n in names)]
    seen = {f.path for f in todo}
    for f in list(todo):
        for bi, t in f.calls():
            if t[1][0] == "fn":
                for c in P.callees(t[1]):
                    g = P.fns[c]
                    if g.crate == "asciidork_parser" and c not in seen and any(re.search(r"\bu8\b", g.ty(i + 1)) for i in range(g.argc)) \
                            and len(g.blocks) < 60 and g.ty(0) in ("bool", "usize", "std::option::Option<usize>", "core::option::Option<usize>"):
                        seen.add(c)
                        todo.append(g)
    n = 0
    for f in todo:
        bad = None

        def u8(o):
            return o[0] in ("p", "m") and f.place_ty(o[1]) == "u8" if hasattr(f, "place_ty") else o[0] in ("p", "m") and f.ty(o[1][0]).lstrip("&") == "u8"
        for b in f.blocks:
            for pl, rv, ln in b["s"]:
                if rv[0] == "bin" and any(u8(x) for x in rv[2:4]):
                    ks = [f.sym_op(x) for x in rv[2:4]]
                    k = [e[1] for e in ks if e[0] == "k" and isinstance(e[1], int)]
                    n += 1
                    if k and k[0] >= 128 or rv[1] in ("Lt", "Le", "Gt", "Ge"):
                        bad = (ln, "compares a byte with %s" % (k[0] if k else "another in order"))
                elif rv[0] == "cast" and isinstance(rv[1], (list, tuple)) and rv[1] and rv[1][0] in ("p", "m") and u8(rv[1]) \
                        and len(pl) == 1 and f.ty(pl[0]) == "char":
                    n += 1
                    bad = (ln, "takes a single byte for a character")
            t = b["t"]
            if t[0] == "switch" and u8(t[1]):
                n += 1
                if any(int(v) >= 128 for v, _ in t[2]):
                    bad = (f.line, "singles out a byte above 127")
            if t[0] == "call" and t[1][0] == "fn" and "truncate" in t[1][1] and f.sym_op(t[2][-1])[0] == "k" and f.sym_op(t[2][-1])[1] != 0:
                bad = (t[5], "cuts the buffer at a fixed length")
            if t[0] == "call" and t[1][0] == "fn" and short(t[1][1]) in ("PartialEq::eq", "PartialEq::ne", "slice::contains", "[T]::contains"):
                for o in t[2]:
                    e = f.sym_op(o)
                    while e[0] == "ref":
                        e = e[1]
                    if e[0] == "k" and isinstance(e[1], int) and e[1] >= 128 and "u8" in str(t[1][3:]):
                        bad = (t[5], "compares a byte with %d" % e[1])
        if bad:
            R.bad("surgery:" + f.short, "%s: %s %s while rewriting include text, so it can split a multi-byte character after the UTF-8 check"
                  % (where(f, bad[0]), f.short, bad[1]))
        else:
            R.ok("%s: bytes are told apart by ASCII values only" % f.short)
    R.count("functions that rewrite byte buffers", len(todo))
    R.count("byte tests in them", n)
    R.floor("byte tests in them", 3)


def justify(P, fn, e, validated, d=0):
    if e[0] in ("arg", "var") and any(fn.short.endswith(c) for c in CONSTR):
        return "forwards its own parameter"
    if fn.path in validated:
        return "typestate above"
    if e[0] == "call" and e[1] == "Line::into_bytes":
        return "bytes of token text (str)"
    if from_str(e):
        return "bytes of a str"
    pos = e[1] if e[0] == "arg" else e[2] if e[0] == "var" and len(e) > 2 else None
    if d < 4 and isinstance(pos, int) and 1 <= pos <= fn.argc:
        # a parameter: every caller must justify what it passes
        n = 0
        for c in P.rev().get(fn.path, ()):
            g = P.fns.get(c)
            if g is None:
                return None
            for bi, t in g.calls():
                if fn.path in P.callees(t[1]):
                    n += 1
                    if not justify(P, g, g.sym_op(t[2][pos - 1]), validated, d + 1):
                        return None
        if n:
            return "parameter; justified at its %d call(s)" % n
    return None


def ascii_overwrite(P, fn, bi, t):
    """v.as_mut_vec()[c] = <ascii> with v known to start with an ASCII literal longer than c"""
    dest = t[3][0]
    idx = val = None
    owner = fn.sym_op(t[2][0])
    ptr = None
    for b in fn.blocks:
        tt = b["t"]
        if tt[0] == "call" and tt[1][0] == "fn" and tt[1][1].split("::")[-1] == "index_mut":
            a = fn.sym_op(tt[2][0])
            if a[0] == "call" and a[1].split("::")[-1] == "as_mut_vec":
                idx = fn.sym_op(tt[2][1])
                ptr = tt[3][0]
    if ptr is None or idx is None or idx[0] != "k":
        return None
    for b in fn.blocks:
        for pl, rv, ln in b["s"]:
            if pl[0] == ptr and len(pl) == 2 and pl[1] == "*":
                v = fn.sym_rv(rv)
                if v[0] == "k" and isinstance(v[1], int):
                    val = v[1]
    if val is None or val >= 128:
        return None
    # dominated by the true arm of owner.starts_with("<ascii>")
    for i, b in enumerate(fn.blocks):
        tt = b["t"]
        if tt[0] != "switch":
            continue
        c = fn.sym_op(tt[1])
        if c[0] == "call" and c[1].split("::")[-1] == "starts_with" and c[2][0] == owner and c[2][1][0] == "k" \
                and isinstance(c[2][1][1], str) and c[2][1][1].isascii() and len(c[2][1][1]) > idx[1]:
            false_t = [x for v, x in tt[2] if int(v) == 0]
            if false_t and not reach_without(fn, i, tt[3], bi):
                return "overwrites byte %d of a string that starts with %r by an ASCII byte" % (idx[1], c[2][1][1])
    return None


def reach_without(fn, sw, true_t, goal):
    """can goal be reached without taking the edge sw->true_t?"""
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == goal:
            return True
        for s in fn.succs(x):
            if x == sw and s == true_t:
                continue
            st.append(s)
    return False
