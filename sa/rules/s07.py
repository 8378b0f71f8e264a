"""In server and secure mode a document cannot learn where it lives on the host.

Every insertion of the job attributes docdir / docfile / user-home is found;
on the paths where the safe mode can be Server or Secure the inserted value
must be built from constants and the bare file name only, all three must be
inserted (so that they are locked), and the document's metadata is never
replaced without the insertion being repeated before the function returns."""
from common import where, expr_any, iter_array, loop_elems
from engine import Explorer, Spec
from mir import short
from rules.policy import mode_fact, mode_testers, possible_modes
import gates
from rules import attrs

NAMES = {"docdir", "docfile", "user-home"}
BARE = ("Path::file_stem", "Path::extension", "Path::file_name", "Path::file_stem_str")
BUILD = ("format", "Arguments::new", "Argument::new_display", "ToString::to_string", "String::from", "Into::into",
         "From::from", "Clone::clone", "String::new", "str::to_owned", "ToOwned::to_owned", "Path::filename",
         "Option::unwrap_or", "Option::unwrap_or_default")


def bare(e):
    k = e[0]
    if k in ("k", "const", "variant"):
        return True
    if k == "call":
        if e[1].startswith(BARE) or e[3].startswith(BARE):
            return True
        n = e[3].split("::")[-1]
        if e[3] in BUILD or e[1] in BUILD or n in ("to_string", "into", "from", "clone", "new_display", "format", "concat",
                                                  "to_owned", "as_str", "must_use", "new", "join", "add", "new_const"):
            return all(bare(a) for a in e[2])
        return False
    if k in ("tuple", "array"):
        return all(bare(a) for a in e[1])
    if k == "adt":
        return all(bare(a) for a in e[3])
    if k in ("cast",):
        return bare(e[1])
    return False


def insertion(e):
    if e[0] == "call" and e[1].split("::")[-1] in ("insert_job_attr", "insert"):
        ks = [a[1] for a in e[2] if a[0] == "k" and a[1] in NAMES]
        if ks:
            return ks[0], e[2][-1]
    return None


def host_path(e):
    """made from the location of the source or from the host's directories"""
    return expr_any(e, lambda x: x[0] == "as" and x[2] == "Path" or x[0] == "call" and
                    x[1].split("::")[-1] in ("source_file", "home_dir", "current_dir", "get_base_dir", "dirname", "parent", "current_exe"))


def other_insertion(names, args):
    """(name, value) of an attribute set under any other name"""
    if names[0].split("::")[-1] in ("insert_job_attr", "insert_header_attr", "insert_doc_attr", "insert_string_attr", "insert",
                                    "insert_unchecked") and len(args) >= 3:
        k = [a[1] for a in args[1:-1] if a[0] == "k" and isinstance(a[1], str)]
        if k and k[0] not in NAMES:
            return k[0], args[-1]
    return None


def insertions(fn, t, names, args):
    """(name, value) pairs a call inserts; in a loop over an array literal, those of every element"""
    i = insertion(("call", names[0], args, names[1]))
    if i:
        return [i]
    if names[0].split("::")[-1] not in ("insert_job_attr", "insert"):
        return []
    raw = [fn.sym_op(a) for a in t[2]]
    el = [loop_elems(fn, a) for a in raw]
    n = max((len(x) for x in el if x), default=0)
    out = []
    for j in range(n):
        i = insertion(("call", names[0], tuple(x[j] if x and len(x) == n else a for x, a in zip(el, args)), names[1]))
        if i:
            out.append(i)
    return out


class S(Spec):
    def __init__(self, P, helpers):
        self.P, self.helpers, self.bad, self.rets, self.others = P, helpers, [], [], 0

    def track(self, fr, e, kind):
        k = mode_fact(self.P, e, kind)
        if k:
            return k
        if kind == "discr" and e[2] == "SourceFile":
            return ("src",)
        return None

    def descend(self, path):
        return path in self.helpers

    def call(self, fr, bi, t, names, args, st):
        if names[1] == "Iterator::next" and iter_array(fr.fn, fr.fn.sym_op(t[2][0])):
            # the loop over a non-empty array literal is entered
            mark = ("loop", fr.fn.path, bi)
            if mark not in st[0]:
                return [((st[0] | {mark}, st[1]), ("tagged", "Option", "Some"))]
            return None
        done = False
        for i in insertions(fr.fn, t, names, args):
            m = possible_modes(dict(st[1])) & {"Server", "Secure"}
            v = i[1]
            if v[0] == "call" and v[1].endswith("readonly") and v[2]:
                v = v[2][0]
            if m and not bare(v):
                self.bad.append((fr.fn, t[5], i[0]))
            st = (st[0] | {i[0]}, st[1])
            done = True
        o = None if done else other_insertion(names, args)
        if o and possible_modes(dict(st[1])) & {"Server", "Secure"}:
            v = o[1]
            if v[0] == "call" and v[1].split("::")[-1] in ("readonly", "modifiable") and v[2]:
                v = v[2][0]
            self.others += 1
            if host_path(v) and not bare(v):
                self.bad.append((fr.fn, t[5], o[0]))
        return [(st, None)] if done else None


class Replace(Spec):
    """document.meta = <not a clone of another document's meta> must be followed by the insertion"""
    def __init__(self, P, setters):
        self.P, self.setters, self.bad, self.n = P, setters, [], 0

    def assign(self, fr, bi, pl, rv, line, st):
        if len(pl) > 1 and isinstance(pl[-1], (list, tuple)) and pl[-1][0] == "f" and pl[-1][1] == "meta" \
                and "Document" in str(pl[-1][2]):
            e = fr.e(fr.fn.sym_rv(rv))
            if not expr_any(e, lambda x: x[0] == "call" and x[1].startswith("DocumentMeta::clone")):
                self.n += 1
                return (line, st[1])
        return st

    def call(self, fr, bi, t, names, args, st):
        if any(c in self.setters for c in self.P.callees(names[2])):
            return [((0, st[1]), None)]
        pl = t[3]
        if len(pl) > 1 and isinstance(pl[-1], (list, tuple)) and pl[-1][0] == "f" and pl[-1][1] == "meta" \
                and "Document" in str(pl[-1][2]) and not names[0].startswith("DocumentMeta::clone"):
            self.n += 1
            return [((t[5], st[1]), None)]
        return None

    def at_return(self, fr, rv, st):
        if st[0]:
            self.bad.append(st[0])
        return st


def run(P, R, tier):
    R.rule("value rule: in Server/Secure the inserted docdir/docfile/user-home is built from constants and file stem/extension only")
    R.rule("must-occur: with a path source in Server/Secure all three names are inserted as job attributes")
    R.rule("must-follow: replacing a parser's document metadata is followed by the insertion before returning")
    direct = set()
    for fn in P.bodies():
        if fn.crate == "asciidork":
            continue
        for bi, t in fn.calls():
            if t[1][0] == "fn":
                e = fn.sym_call(t)
                i = e[0] == "call" and insertions(fn, t, (e[1], e[3]), e[2])
                if i:
                    direct.add(fn.path)
                    R.count("path attribute insertions", 1)
    R.floor("path attribute insertions", 2)
    rev = P.rev()
    # roots: the outermost parser functions that only delegate (helpers extracted from the setter)
    def is_setter(f):
        return any(x[0] == "k" and x[1] in NAMES for x in ())
    roots = set()
    for p in direct:
        st, seen = [p], set()
        while st:
            q = st.pop()
            if q in seen:
                continue
            seen.add(q)
            cs = [c for c in rev.get(q, ()) if c in P.fns and c in direct or
                  c in P.fns and any("SourceFile" in l for l in [P.fns[c].ty(i) for i in range(len(P.fns[c].locals))]) and
                  P.fns[c].name not in ("from_lexer", "apply_job_settings", "cell_parser")]
            cs = [c for c in cs if len(P.fns[c].blocks) < 120 and discr_source(P, P.fns[c])]
            if cs:
                st += cs
            else:
                roots.add(q)
    helpers = direct | gates.helper_set(P, mode_testers(P), direct)
    R.rule("value rule for every other attribute: in Server/Secure no value is made from the source's path (beyond its bare name) or a host directory")
    for fn in P.bodies():
        if fn.crate != "asciidork_parser" or fn.path in direct | helpers | roots or "::tests" in fn.path:
            continue
        for bi, t in fn.calls():
            if t[1][0] == "fn" and len(t[2]) >= 3:
                e = fn.sym_call(t)
                o = e[0] == "call" and other_insertion((e[1], e[3]), e[2])
                if o and host_path(o[1]) and not bare(o[1]):
                    R.bad("value:%s:%s" % (fn.short, o[0]), "attribute `%s` receives a host path at %s" % (o[0], where(fn, t[5])))
    for p in sorted(roots):
        fn = P.fns[p]
        sp = S(P, helpers - {p})
        ex = Explorer(sp, P)
        res = ex.run(fn, [("arg", i + 1, fn.lname(i + 1) or "_") for i in range(fn.argc)], (frozenset(), frozenset()))
        R.count("path states explored", ex.n_states)
        R.count("other attribute insertions judged", sp.others)
        for f, ln, n in sp.bad:
            R.bad("value:%s:%s" % (f.short, n), "in server or secure mode `%s` can receive more than the bare file name at %s" % (n, where(f, ln)))
        if not sp.bad:
            R.ok("values inserted by %s in server/secure mode are constants or the bare file name" % fn.short)
        for rv, st in res:
            d = dict(st[1])
            src = d.get(("src",))
            if src is not None and "Path" not in src:
                continue
            if possible_modes(d) & {"Server", "Secure"}:
                miss = NAMES - st[0]
                R.check(not miss, "missing:" + fn.short, "%s locks docdir, docfile and user-home for a path source in server/secure mode%s" % (
                    fn.short, " - missing: " + ", ".join(sorted(miss)) if miss else ""))
    for fn in P.bodies():
        if fn.crate != "asciidork_parser":
            continue
        if not any(len(pl) > 1 and isinstance(pl[-1], (list, tuple)) and pl[-1][0] == "f" and pl[-1][1] == "meta" and
                   "Document" in str(pl[-1][2]) for pl in places(fn)):
            continue
        sp = Replace(P, roots)
        Explorer(sp, P).run(fn, [("arg", i + 1, fn.lname(i + 1) or "_") for i in range(fn.argc)], (0, frozenset()))
        R.count("metadata replacements", 1)
        R.check(not sp.bad, "replace:" + fn.short, "%s repeats the insertion after replacing the document metadata" % fn.short)
    R.floor("metadata replacements", 1)
    attrs.precedence(P, R)
    attrs.job_writes(P, R)


def places(fn):
    for b in fn.blocks:
        for pl, rv, ln in b["s"]:
            yield pl
        if b["t"][0] == "call":
            yield b["t"][3]


def discr_source(P, fn):
    for b in fn.blocks:
        for pl, rv, ln in b["s"]:
            if rv[0] == "discr" and str(rv[2]).endswith("SourceFile"):
                return True
    return False
