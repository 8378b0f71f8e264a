"""No diagnostic is lost: lenient parses collect every one, strict parses fail with the first.

Diagnostics are treated as linear values over the parser crate's MIR: on every
path a live value that carries one (Diagnostic, Vec<Diagnostic>, Result<_, Diagnostic>,
Option<Diagnostic>) must be handed on - propagated, returned, pushed onto the
collected list - and may never be dropped, unwrapped or converted away."""
from common import where
from engine import Explorer, Spec
from mir import short, fmt, rv_ops, MissingAnchor

CRATE = "asciidork_parser"
HANDON = {"Try::branch", "FromResidual::from_residual", "Result::map", "Result::and_then", "Vec::push", "Vec::extend",
          "Extend::extend", "Vec::append", "From::from", "Into::into", "Result::map_err", "Option::map", "Option::unwrap",
          "Option::map_or", "Option::ok_or", "Option::ok_or_else", "Option::transpose", "Result::transpose", "mem::replace",
          "RefCell::new", "RefCell::into_inner", "Option::is_some_and", "Option::map_or_else", "Option::unwrap_or", "Option::expect",
          "IntoIterator::into_iter", "Iterator::next", "box_new", "Box::new", "box_assume_init_into_vec_unsafe",
          "write_box_via_move", "Iterator::chain", "Result::or_else", "Vec::insert"}
LOSING_REF = {"Vec::clear", "Vec::truncate", "Vec::retain", "Vec::drain", "Vec::dedup", "Vec::split_off",
              "mem::take", "Vec::swap_remove", "Vec::dedup_by", "Vec::dedup_by_key", "Vec::retain_mut"}
NEEDS_PLACE = {"Vec::pop", "Vec::remove"}


def carries(t):
    if "Diagnostic" not in t or t.startswith("&") or "fn(" in t[:4]:
        return False
    if "diagnostic::Diagnostic" not in t:
        return False
    b = t.split("<")[0]
    if b.endswith(("Ref", "RefMut", "::Iter", "IterMut", "ControlFlow", "PhantomData", "closure")):
        return False
    if b.endswith(("RefCell", "Parser", "ParseResult")) or t.startswith("{closure"):
        return False
    if "result::Result<" in b + "<" and b.endswith("Result"):
        # a payload of references only is not a carrier of its own
        return True
    return True


class S(Spec):
    max_states = 400000

    def __init__(self, P, fn, diag):
        self.P, self.fn, self.diag, self.ev = P, fn, diag, []
        self.handled = 0
        self.owed = appends(P, fn.path)

    def track(self, fr, e, kind):
        if kind == "bool":
            if e[0] == "field" and e[2] == "strict":
                return "strict"
            if e[0] == "call" and e[1].endswith("::is_empty") and self.root_local(e[2][0]) is not None:
                return ("empty", self.root_local(e[2][0]))
        if kind == "discr" and iterated(e[1]) in self.diag:
            return ("next", iterated(e[1]))
        return None

    def root_local(self, e):
        if e[0] == "var" and e[2] in self.diag:
            return e[2]
        if e[0] == "arg" and (e[1] in self.diag or e[1] in self.owed):
            return e[1]
        return None

    def live(self, st, o, add=None):
        auto, facts = st
        auto = set(auto)
        if o is not None and o[0] == "m" and o[1][0] in auto and o[1][0] in self.diag:
            auto.discard(o[1][0])
        if add is not None and add in self.diag:
            auto.add(add)
        return frozenset(auto), facts

    def assign(self, fr, bi, pl, rv, line, st):
        if rv[0] == "dead":
            return st
        for o in rv_ops(rv):
            st = self.live(st, o)
        if len(pl) == 1 and pl[0] in self.diag:
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] in ("Ok", "None"):
                return st       # carries no diagnostic
            st = self.live(st, None, pl[0])
        return st

    def call(self, fr, bi, t, names, args, st):
        n, tn, f = names
        local = bool(self.P.callees(f))
        if tn == "Iterator::next":
            l = self.borrowed(fr.fn, t[2][0])
            st = (st[0], frozenset(x for x in st[1] if x[0] != ("next", l)))
        for o in t[2]:
            if o[0] == "m" and len(o[1]) == 1 and o[1][0] in self.diag and o[1][0] in st[0]:
                self.handled += 1
                if not local and tn not in HANDON and n not in HANDON:
                    self.ev.append((t[5], "discards it through %s" % tn))
            st = self.live(st, o)
        if not local and tn in LOSING_REF | NEEDS_PLACE and t[2]:
            o = t[2][0]
            ty = fr.fn.ty(o[1][0]) if o[0] in ("p", "m") else ""
            if "diagnostic::Diagnostic" in ty and ty.startswith("&"):
                if tn in LOSING_REF:
                    self.ev.append((t[5], "removes collected diagnostics with %s" % tn))
        # `append(&mut list)` empties the list it is given; so does a helper that must append its parameter
        for i, o in enumerate(t[2]):
            l = self.borrowed(fr.fn, o)
            if l is None:
                continue
            if not local and tn == "Vec::append" and i == 1 or \
                    local and all(i + 1 in appends(self.P, c) for c in self.P.callees(f)):
                st = (st[0] - {l}, st[1])
        if len(t[3]) == 1 and t[3][0] in self.diag:
            st = self.live(st, None, t[3][0])
        return [(st, None)]

    def borrowed(self, fn, o):
        for _ in range(4):
            if o[0] not in ("p", "m"):
                return None
            l = o[1][0]
            if l in self.diag or ("owed", l) and l in self.owed:
                return l
            ds = fn.defs().get(l, [])
            if len(ds) != 1 or ds[0][2] != "rv":
                return None
            rv = ds[0][3]
            if rv[0] in ("ref", "use"):
                o = ["p", [rv[1][0]]] if rv[0] == "ref" else rv[1]
            else:
                return None
        return None

    def drop(self, fr, bi, t, st):
        l = t[1][0]
        if len(t[1]) == 1 and l in st[0]:
            facts = dict(st[1])
            if facts.get(("empty", l)) is True:
                return st
            if facts.get("strict") is True and fr.fn.ty(l).startswith(("alloc::vec::Vec", "std::vec::Vec")):
                return st      # strict: the first one is returned, the rest do not matter
            tag = fr.up.get(l) if fr.up else None
            if tag is not None and Explorer.tag(tag) in ("Ok", "None"):
                return st
            if facts.get(("next", l)) == frozenset(["None"]):     # an iterator that has said None is empty
                return st
            self.ev.append((t[3] if len(t) > 3 and isinstance(t[3], int) else fr.fn.line,
                            "drops `%s: %s` while it may hold a diagnostic" % (
                                fr.fn.lname(l) or "_%d" % l, short_ty(fr.fn.ty(l)))))
        return st

    def at_return(self, fr, rv, st):
        for l in self.owed & st[0]:
            if dict(st[1]).get(("empty", l)) is not True:
                self.ev.append((fr.fn.line, "returns without appending `%s` on some path" % fr.fn.lname(l)))
        return st


_APP = {}


def iterated(e):
    """the local whose `next` the expression is"""
    if e[0] == "call" and len(e) > 3 and e[3] == "Iterator::next" and e[2]:
        e = e[2][0]
        while e[0] in ("ref", "deref"):
            e = e[1]
        if e[0] == "var":
            return e[2]
    return None


def appends(P, path):
    """parameters (&mut Vec<Diagnostic>) the function appends to something else somewhere"""
    if path not in _APP:
        fn = P.fns[path]
        _APP[path] = set()
        for bi, t in fn.calls():
            if t[1][0] == "fn" and short(t[1][1]) == "Vec::append" and len(t[2]) > 1:
                e = fn.sym_op(t[2][1])
                if e[0] == "arg" and fn.ty(e[1]).startswith("&mut") and "Diagnostic" in fn.ty(e[1]):
                    _APP[path].add(e[1])
    return _APP[path]


def short_ty(t):
    import re
    return re.sub(r"[a-z_0-9]+::", "", t)[:80]


def run(P, R, tier):
    R.rule("linear values: Diagnostic / Vec<Diagnostic> / Result<_, Diagnostic> are never dropped, unwrapped or discarded on "
           "any non-unwinding path (except known-empty lists)")
    R.rule("Err(Diagnostic) is built only under strict == true; the collected list grows only by push (strict == false) or "
           "extend, and shrinks never")
    n = 0
    for fn in P.bodies(consts=False):
        if fn.crate != CRATE:
            continue
        diag = {l for l in range(len(fn.locals)) if carries(fn.ty(l))}
        diag.discard(0)
        if not diag and not appends(P, fn.path):
            continue
        n += 1
        s = S(P, fn, diag)
        st = frozenset(l for l in diag if 1 <= l <= fn.argc) | frozenset(s.owed)
        ex = Explorer(s, P)
        ex.run(fn, [("arg", i + 1, fn.lname(i + 1) or "_%d" % i) for i in range(fn.argc)], (st, frozenset()))
        R.count("path states explored", ex.n_states)
        R.count("diagnostic-carrying values", len(diag))
        seen = set()
        for ln, m in s.ev:
            if m in seen:
                continue
            seen.add(m)
            if relexed_link(fn, m, ln, P):
                R.assumption("%s: the re-read `link:` line was read once before with the same attribute references, so "
                             "reading it again raises nothing new" % where(fn, ln))
                continue
            R.bad("lost:%s:%s" % (fn.short, m), "%s %s" % (where(fn, ln), m))
        if not s.ev:
            R.ok("%s: %d diagnostic-carrying values, all handed on" % (fn.short, len(diag)))
    R.count("functions carrying diagnostics", n)
    R.floor("functions carrying diagnostics", 40)
    raised(P, R)
    wrappers(P, R)
    collected(P, R)


def relexed_link(fn, m, ln, P):
    """`read_line().unwrap()` right after the line was put into the temporary buffer"""
    if "Result::unwrap" not in m:
        return False
    tmp = any(t[1][0] == "fn" and short(t[1][1]).endswith("::set_tmp_buf") for _, t in fn.calls())
    src = any(t[1][0] == "fn" and short(t[1][1]) == "Result::unwrap" and t[5] == ln and
              fn.sym_op(t[2][0])[0] == "call" and fn.sym_op(t[2][0])[1].endswith("::read_line") for _, t in fn.calls())
    return tmp and src


class S2(Spec):
    def __init__(self, P):
        self.P, self.ev = P, []

    def track(self, fr, e, kind):
        if kind == "bool" and e[0] == "field" and e[2] == "strict":
            return "strict"
        return None

    def assign(self, fr, bi, pl, rv, line, st):
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] == "Err" and rv[1][1].endswith("Result"):
            ty = fr.fn.ty(pl[0])
            o = rv[2][0]
            oty = fr.fn.ty(o[1][0]) if o[0] in ("p", "m") else ""
            e = fr.fn.sym_op(o)
            passed_on = e[0] == "field" and e[1][0] == "as" and e[1][2] in ("Err", "Break")
            if oty.endswith("diagnostic::Diagnostic") and not passed_on:
                self.ev.append(("err", fr.fn, line, dict(st[1]).get("strict")))
        return st

    def call(self, fr, bi, t, names, args, st):
        if names[1] in ("Vec::push", "Vec::insert") and args and is_errors(args[0]):
            v = args[-1]        # collecting what a nested parser or a list already holds raises nothing
            if not (v[0] == "field" and v[1][0] == "as" and v[1][2] == "Some" and v[1][1][0] == "call"
                    and v[1][1][-1] == "Iterator::next"):
                self.ev.append(("push", fr.fn, t[5], dict(st[1]).get("strict")))
        return None


def is_errors(e):
    return e[0] == "field" and e[2] == "errors"


def raised(P, R):
    for fn in P.bodies():
        if fn.crate != CRATE:
            continue
        has = any(rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] == "Err" and rv[2] and rv[2][0][0] in ("p", "m") and
                  fn.ty(rv[2][0][1][0]).endswith("diagnostic::Diagnostic") for b in fn.blocks for pl, rv, ln in b["s"])
        has |= any(t[1][0] == "fn" and short(t[1][1]) in ("Vec::push", "Vec::insert") and t[2] and
                   is_errors(fn.sym_op(t[2][0])) for _, t in fn.calls())
        if not has:
            continue
        s = S2(P)
        Explorer(s, P).run(fn, [("arg", i + 1, fn.lname(i + 1) or "_%d" % i) for i in range(fn.argc)], (0, frozenset()))
        for kind, f, ln, strict in s.ev:
            R.count("points where a diagnostic is raised or collected", 1)
            if kind == "err":
                R.check(strict is True, "lenient-abort:%s" % f.short,
                        "%s: Err(diagnostic) is built only when strict" % where(f, ln))
            else:
                R.check(strict is False, "strict-collect:%s" % f.short,
                        "%s: a diagnostic is collected only when not strict" % where(f, ln))
    R.floor("points where a diagnostic is raised or collected", 1)


def mentions(e, i):
    if isinstance(e, (tuple, list)):
        if len(e) > 1 and e[0] == "arg" and e[1] == i:
            return True
        return any(mentions(x, i) for x in e)
    return False


class S3(Spec):
    """every return has handed the parameter to something that raises it"""
    def __init__(self, P, fn, i, raisers):
        self.P, self.fn, self.i, self.raisers, self.bad = P, fn, i, raisers, False

    def call(self, fr, bi, t, names, args, st):
        if any(j - 1 < len(t[2]) and (message(fr.fn, t[2][j - 1], self.i) or built(fr.fn, t[2][j - 1]))
               for c in self.P.callees(names[2]) for j in self.raisers.get(c, ())):
            return [((True, st[1]), None)]
        return None

    def at_return(self, fr, rv, st):
        if st[0] is not True and not (rv and Explorer.tag(rv) == "Err"):
            self.bad = True
        return st


def wrappers(P, R):
    """`err_*`: a function that raises its own parameter raises it on every path"""
    R.rule("a function that passes one of its own parameters on as (the text of) a raised diagnostic does so on every path "
           "that returns without an error, unless the caller asks by a bool parameter")
    fns = [f for f in P.bodies(consts=False) if f.crate == CRATE and f.argc >= 2]
    raisers = {}
    for f in fns:        # the base: collects or returns the Diagnostic it is given
        for i in range(1, f.argc + 1):
            if f.ty(i).endswith("diagnostic::Diagnostic") and not f.ty(i).startswith("&") and any(
                    t[1][0] == "fn" and short(t[1][1]) in ("Vec::push", "Vec::insert") and len(t[2]) > 1 and
                    mentions(f.sym_op(t[2][-1]), i) for _, t in f.calls()):
                raisers.setdefault(f.path, set()).add(i)
    R.count("functions that raise what they are given", len(raisers))
    R.floor("functions that raise what they are given", 1)
    new = True
    while new:
        new = False
        for f in fns:
            for i in range(2, f.argc + 1):
                if i in raisers.get(f.path, ()):
                    continue
                if not (f.ty(i).endswith("diagnostic::Diagnostic") or "Into<" in f.ty(i) or "str" in f.ty(i) or "String" in f.ty(i)):
                    continue
                if "SourceLocation" in f.ty(i):
                    continue
                hit = any(t[1][0] == "fn" and any(
                    j - 1 < len(t[2]) and message(f, t[2][j - 1], i) for c in P.callees(t[1]) for j in raisers.get(c, ()))
                    for _, t in f.calls())
                if hit:
                    raisers.setdefault(f.path, set()).add(i)
                    new = True
    for path, ps in sorted(raisers.items()):
        f = P.fns[path]
        for i in sorted(ps):
            if f.ty(i).endswith("diagnostic::Diagnostic"):
                base = any(t[1][0] == "fn" and short(t[1][1]) == "Vec::push" for _, t in f.calls())
                if base:
                    continue        # linear value
            R.count("functions that raise what they are given", 1)
            if any(f.ty(k) == "bool" for k in range(1, f.argc + 1)):
                continue
            s = S3(P, f, i, raisers)
            Explorer(s, P).run(f, [("arg", k + 1, f.lname(k + 1) or "_%d" % k) for k in range(f.argc)], (None, frozenset()))
            R.check(not s.bad, "raises:" + f.short,
                    "%s: `%s` is raised on every path that returns Ok" % (where(f, f.line), f.lname(i)))


def built(f, o):
    """a Diagnostic put together in steps: whatever its text, it is raised"""
    return o[0] in ("p", "m") and f.ty(o[1][0]).endswith("diagnostic::Diagnostic") and f.sym_op(o)[0] != "adt"


def message(f, o, i):
    """the operand is the parameter, a conversion of it, or a Diagnostic whose message is"""
    e = f.sym_op(o)
    if e[0] == "adt" and "message" in e[4]:
        return mentions(e[3][e[4].index("message")], i)
    return mentions(e, i)


OKM = {"RefCell::borrow_mut", "RefCell::into_inner", "RefCell::borrow", "RefCell::new"}


def collected(P, R):
    """who touches the list"""
    for fn in P.bodies():
        if fn.crate != CRATE:
            continue
        for bi, t in fn.calls():
            if t[1][0] != "fn" or not t[2]:
                continue
            e = fn.sym_op(t[2][0])
            if is_errors(e) and e[1][0] in ("arg", "var") and "Parser" in fn.ty(e[1][2] if e[1][0] == "var" else e[1][1]):
                n = short(t[1][1])
                R.count("uses of the collected list", 1)
                ro = t[2][0][0] in ("p", "m") and fn.ty(t[2][0][1][0]).startswith("&") and \
                    not fn.ty(t[2][0][1][0]).startswith("&mut")
                ty = fn.ty(t[2][0][1][0]).split("<")[0] if t[2][0][0] in ("p", "m") else ""
                guard = n in ("drop", "mem::drop") and ty.endswith(("Ref", "RefMut"))
                R.check(ro or guard or n in OKM or n in ("Vec::push", "Extend::extend", "Vec::append", "Deref::deref", "DerefMut::deref_mut",
                                          "Vec::is_empty", "Vec::len", "Vec::iter", "Vec::insert"),
                        "list:%s:%s" % (fn.short, n), "%s: collected diagnostics only grow (%s)" % (where(fn, t[5]), n))
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f" and pl[-1][1] == "errors" and \
                        "Parser" in fn.ty(pl[0]):
                    R.bad("list-replaced:" + fn.short, "%s replaces the collected list" % where(fn, ln))
    R.floor("uses of the collected list", 1)
    # the list becomes the result's warnings
    moved = False
    for fn in P.bodies():
        if fn.crate != CRATE:
            continue
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("ParseResult"):
                    i = rv[1][3].index("warnings") if "warnings" in rv[1][3] else -1
                    e = fn.sym_op(rv[2][i]) if i >= 0 else ("?",)
                    ok = e[0] == "call" and e[1] == "RefCell::into_inner" and is_errors(e[2][0]) or is_errors(e)
                    moved = moved or ok
                    R.check(ok, "warnings:" + fn.short, "%s: ParseResult.warnings is the collected list" % where(fn, ln))
    R.check(moved, "warnings", "a ParseResult carries the collected list")
