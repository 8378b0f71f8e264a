"""AsciiDoc table cells and includes stay inside the limits the host gave the document.

(a) every parser a Parser builds for a nested document is given - on every path,
as the last write - the enclosing parser's strictness, include resolver, metadata,
shared reference tables and include depth; (b) every entry of an included source
into the lexer is dominated by the comparison of the include depth counted from the
root document with a limit that is at most the host's max-include-depth."""
from common import where, expr_any, strs
from engine import Explorer, Spec
from gates import GateSpec, helper_set
from mir import short, fmt, MissingAnchor

CRATE = "asciidork_parser"
MAXF, BASEF = "max_include_depth", "base_include_depth"
CELL_REMOVED = {"toc", "toc-placement", "toc-position", "showtitle", "notitle"}
SHARED = ("callouts", "anchor_ids", "xrefs")


# ---------- value classes ----------
def values(P, fn, e, d=0):
    """(fn, expr) leaves a value can come from: all definitions of multi-defined locals, bodies of local callees"""
    if d > 8:
        return [(fn, e)]
    if e[0] == "var":
        out = []
        for _, _, k, pay in fn.defs().get(e[2], ()):
            if k == "part":
                return [(fn, e)]
            out += values(P, fn, fn.sym_rv(pay) if k == "rv" else fn.sym_call(pay), d + 1)
        return out or [(fn, e)]
    if e[0] == "call":
        f = local_fn(P, e)
        if f is not None:
            return values(P, f, f.sym_local(0), d + 1)
    return [(fn, e)]


def local_fn(P, e):
    if isinstance(e[1], str) and e[1].split("::")[0] in ("Parser", "RootLexer", "ParseContext", "SourceLexer") or \
            isinstance(e[1], str) and "::" not in e[1]:
        for f in P.fns.values():
            if f.short == e[1] and f.crate == CRATE and f.ty(0) in ("u16", "u32", "usize", "u64", "i32", "u8"):
                return f
    return None


def is_limit(P, fn, e, d=0):
    if d > 8:
        return False
    if e[0] == "cast":
        return is_limit(P, fn, e[1], d + 1)
    if e[0] == "field" and e[2] == MAXF:
        return expr_any(e[1], lambda x: x[0] == "field" and x[2] == "ctx") or e[1][0] == "arg"
    if e[0] == "call" and (e[1].endswith("::min") or e[1] == "min"):
        return any(is_limit(P, fn, a, d + 1) for a in e[2])
    if e[0] == "call" and e[1].split("::")[-1] == "clamp":
        return is_limit(P, fn, e[2][2], d + 1)
    if e[0] == "call" and e[1] in ("saturating_sub", "min"):
        return is_limit(P, fn, e[2][0], d + 1)
    vs = values(P, fn, e)
    if vs == [(fn, e)]:
        return False
    return bool(vs) and all(is_limit(P, f, v, d + 1) for f, v in vs)


def depth_terms(P, fn, e, d=0):
    """set of terms of a sum, or None when something else takes part"""
    if d > 8:
        return None
    if e[0] == "cast":
        return depth_terms(P, fn, e[1], d + 1)
    if e[0] == "k" and isinstance(e[1], int):
        return {("k", e[1])}
    if e[0] == "field" and e[2] == BASEF:
        return {"base"}
    if e[0] == "field" and e[2] == "idx" and e[1][0] in ("arg", "field"):
        return {"lexer"}
    if e[0] == "call" and e[1].split("::")[-1] == "len" and e[2] and e[2][0][0] == "field" and e[2][0][2] == "source_stack":
        return {"lexer"}
    if e[0] == "bin" and e[1] == "Add" or e[0] == "call" and e[1] in ("saturating_add", "wrapping_add", "Add::add"):
        ab = (e[2], e[3]) if e[0] == "bin" else e[2]
        if e[0] == "call" and e[1] == "wrapping_add":
            return None
        out = set()
        for x in ab:
            s = depth_terms(P, fn, x, d + 1)
            if s is None or (s & out):
                return None
            out |= s
        return out
    vs = values(P, fn, e)
    if len(vs) == 1 and vs != [(fn, e)]:
        return depth_terms(P, vs[0][0], vs[0][1], d + 1)
    return None


def depth_of(P, fn, e):
    """None or the constant added to the full include depth"""
    s = depth_terms(P, fn, e)
    if s is None or not {"base", "lexer"} <= s:
        return None
    ks = [x[1] for x in s if isinstance(x, tuple)]
    return sum(ks)


def depth_gate(P):
    def key(fr, e, kind):
        if kind != "bool" or e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge"):
            return None
        op, a, b = e[1], e[2], e[3]
        if op in ("Gt", "Ge"):
            op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
        # a < b  /  a <= b
        fn = fr.fn
        ka = depth_of(P, fn, a)
        if ka is not None and is_limit(P, fn, b):
            n = ka + (1 if op == "Lt" else 0)         # depth + n <= limit when true
            return ("depth+n<=limit", True, n)
        kb = depth_of(P, fn, b)
        if kb is not None and is_limit(P, fn, a):
            n = kb + (0 if op == "Lt" else 1)         # limit < depth+k  => false means depth+k <= limit
            return ("depth+n<=limit", False, n)
        return None
    return key


def gated(fr, t, names, args, facts):
    return any(k[0] == "depth+n<=limit" and v == k[1] and k[2] >= 1 for k, v in facts.items() if isinstance(k, tuple))


def depth_rule(P, R):
    key = depth_gate(P)

    def is_sink(fr, t, names, args):
        return names[0].endswith("Lexer::push_source") and "push_source"
    sinks = [f for f in P.bodies({CRATE}) if any(t[1][0] == "fn" and short(t[1][2] or t[1][1]).endswith("Lexer::push_source")
                                                 for _, t in f.calls())]
    if not sinks:
        raise MissingAnchor("push_source call")
    direct = set()
    for f in P.bodies({CRATE}):
        for b in f.blocks:
            if b["t"][0] == "switch":
                e = f.sym_op(b["t"][1])
                if expr_any(e, lambda x: x[0] == "bin" and x[1] in ("Lt", "Le", "Gt", "Ge")) and \
                        expr_any(e, lambda x: depth_of(P, f, x) is not None if x[0] in ("call", "bin", "field", "var") else False):
                    direct.add(f.path)
            for pl, rv, ln in b["s"]:
                if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge"):
                    e = f.sym_rv(rv)
                    if depth_of(P, f, e[2]) is not None or depth_of(P, f, e[3]) is not None:
                        direct.add(f.path)
    helpers = helper_set(P, direct, {s.path for s in sinks})
    R.count("depth comparisons", len(direct))
    pending = {s.path for s in sinks}
    done = set()
    is_target = set(pending)
    while pending:
        p = pending.pop()
        if p in done:
            continue
        done.add(p)
        fn = P.fns[p]

        def sink(fr, t, names, args):
            if names[0].endswith("Lexer::push_source"):
                return "push_source"
            if any(c in need for c in P.callees(t[1])):
                return "call"
            return None
        need = done - {p}
        sp = GateSpec(P, sink, key, gated, helpers)
        Explorer(sp, P).run(fn, tuple(("arg", i, fn.lname(i) or "") for i in range(1, fn.argc + 1)), (frozenset(), frozenset()))
        if not sp.events:
            R.ok("%s: every path to push_source has compared the include depth from the root with the host's limit" % fn.short)
            continue
        callers = [c for c in P.rev().get(p, ()) if c in P.fns]
        if not callers or len(done) > 12:
            for ev in sp.events[:1]:
                R.bad("depth:" + fn.short, "%s: an included source is entered on a path that has not compared the include depth "
                      "(counted from the root document) with max-include-depth" % where(fn, ev[2]))
        else:
            pending |= set(callers) - done
    # the lexer's own depth: the index moves to a new source only together with a push of the enclosing one
    enters = 0
    for f in P.bodies({CRATE}):
        if not f.short.startswith("RootLexer::"):
            continue
        for bi, b in enumerate(f.blocks):
            for pl, rv, ln in b["s"]:
                if rv[0] == "dead" or len(pl) < 2 or not isinstance(pl[-1], list) or pl[-1][:2] != ["f", "idx"]:
                    continue
                v = f.sym_rv(rv)
                if expr_any(v, lambda x: x[0] == "call" and x[1].endswith("::pop")):
                    continue        # leaving a source
                enters += 1
                ok = pushed_before(P, f, bi)
                R.check(ok, "enter:%s" % f.short, "%s: the lexer enters a new source%s" % (
                    where(f, ln), " and pushes the enclosing one" if ok else " without pushing the enclosing one, so the include "
                    "depth no longer counts it"))
    R.count("source entries", enters)


def pushed_before(P, f, target):
    """every path from the entry of f to block `target` pushes onto the source stack"""
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == target:
            return False
        t = f.blocks[b]["t"]
        if t[0] == "call" and t[1][0] == "fn" and short(t[1][2] or t[1][1]).endswith("::push") and expr_any(
                f.sym_call(t), lambda x: x[0] == "field" and x[2] == "source_stack"):
            continue
        work += f.succs(b)
    return True


def writes(P, R):
    """who writes the limit and the base depth"""
    n = 0
    for f in P.bodies({CRATE}):
        for b in f.blocks:
            for pl, rv, ln in b["s"]:
                if rv[0] == "dead":
                    continue
                for field, e in field_writes(f, pl, rv):
                    if field not in (MAXF, BASEF):
                        continue
                    if len(pl) == 1 and not f.ty(pl[0]).endswith(("ParseContext<'arena>", "ParseContext")) and \
                            "ParseContext" not in f.ty(pl[0]):
                        continue
                    if len(pl) > 1 and "ParseContext" not in str(pl[-1][2:]):
                        continue
                    n += 1
                    if field == MAXF:
                        ok = is_limit(P, f, e) or e[0] == "k" or host_limit(P, f, e)
                    else:
                        ok = e == ("k", 0) or e[0] == "field" and e[2] == BASEF or depth_of(P, f, e) is not None
                    R.check(ok, "write:%s:%s" % (f.short, field),
                            "%s: %s is set to `%s`%s" % (where(f, ln), field, fmt(e)[:100], "" if ok else
                                                         ", which is not bounded by the host's limit" if field == MAXF else
                                                         ", which is not the depth counted from the root"))
                    if field == MAXF and e[0] == "k" and not isctor(f):
                        R.bad("reset:%s" % f.short, "%s: the include depth limit is reset to a constant" % where(f, ln))
    R.count("limit/depth writes", n)
    # job settings
    fs = [f for f in P.bodies({CRATE}) if f.short == "Parser::apply_job_settings"]
    if not fs:
        raise MissingAnchor("Parser::apply_job_settings")

    class J(Spec):
        def assign(self, fr, bi, pl, rv, ln, st):
            if rv[0] != "dead":
                for field, e in field_writes(fr.fn, pl, rv):
                    if field == MAXF and host_limit(P, fr.fn, e):
                        return (st[0] | {"set"}, st[1])
            return st

        def descend(self, path):
            return path in P.fns and any("JobSettings" in P.fns[path].ty(i) or "JobAttrs" in P.fns[path].ty(i)
                                         for i in range(1, P.fns[path].argc + 1)) and P.fns[path].crate == CRATE

        def at_return(self, fr, rv, st):
            if fr.fn is fs[0] and "set" not in st[0]:
                bad.append(1)
            return st
    bad = []
    Explorer(J(), P).run(fs[0], tuple(("arg", i, fs[0].lname(i) or "") for i in range(1, fs[0].argc + 1)), (frozenset(), frozenset()))
    R.check(not bad, "job-limit", "Parser::apply_job_settings takes max-include-depth from the job attributes on every path")


def host_limit(P, f, e):
    """a value read from the job attribute max-include-depth, with constants as default"""
    if "max-include-depth" not in strs(e):
        return False
    def ok(x):
        if x[0] == "k":
            return True
        if x[0] == "call" and x[1].startswith(("Option::unwrap_or", "Option::map_or")):
            return all(ok(a) for a in x[2] if a[0] not in ("closure", "fn"))
        if x[0] == "call" and (x[1].startswith("JobAttrs::") or x[1].startswith("ReadAttr::") or x[3].startswith("ReadAttr::")):
            return expr_any(x[2][0], lambda y: y[0] == "field" and y[2] == "job_attrs") or x[2][0][0] in ("arg", "var")
        if x[0] == "var":
            return all(ok(v) for _, v in values(P, f, x)) and (f, x) not in values(P, f, x)
        if x[0] == "field" and x[1][0] == "as":
            return ok(x[1][1])
        return False
    return ok(e)


def isctor(f):
    return not any("Parse" in f.ty(i) for i in range(1, f.argc + 1))


def field_writes(fn, pl, rv):
    if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f":
        return [(pl[-1][1], fn.sym_rv(rv))]
    if len(pl) == 1 and rv[0] == "agg" and rv[1][0] == "adt" and len(rv[1]) > 3:
        return [(n, fn.sym_op(o)) for n, o in zip(rv[1][3], rv[2])]
    return []


# ---------- (a) nested parsers ----------
def of_self(e, *names):
    """projection `self.<names>` (clones are transparent)"""
    for n in reversed(names):
        if e[0] != "field" or e[2] != n:
            return False
        e = e[1]
    return e[0] == "arg" or e[0] == "var" and e[1] == "self"


def contains_self(e, *names):
    return expr_any(e, lambda x: of_self(x, *names))


class Build(Spec):
    max_states = 100000

    def __init__(self, P, R, scope):
        self.P, self.R, self.scope, self.bad, self.nret = P, R, scope, [], 0

    def descend(self, path):
        return path in self.scope

    def path(self, fr, pl):
        e = fr.e(fr.fn.sym_place(pl))
        names = []
        while e[0] == "field":
            names.append(e[2])
            e = e[1]
        return tuple(reversed(names)) if self.isnew(e) else None

    def isnew(self, e):
        return e in self.new or e[0] == "var" and e[:3] in self.new and (len(e) == 3 or e[3] == self.rootn)

    new = ()

    def part(self, fr, pl):
        """a local that holds a context being built: its key in the state"""
        ty = fr.fn.ty(pl[0])
        if "ParseContext<" in ty and not ty.startswith(("&", "*", "core::", "std::")) and pl[0] > fr.fn.argc:
            return "$%s:%d" % (fr.fn.path, pl[0])
        return None

    def assign(self, fr, bi, pl, rv, ln, st):
        if rv[0] == "dead":
            return st
        auto = set(st[0])
        lp = self.part(fr, pl)
        if lp and (len(pl) == 1 or isinstance(pl[-1], (list, tuple)) and pl[-1][0] == "f"):
            names = tuple(x[1] for x in pl[1:] if isinstance(x, (list, tuple)) and x[0] == "f")
            auto = {x for x in auto if x[:1 + len(names)] != (lp,) + names}
            src = rv[1][1] if rv[0] == "use" and rv[1][0] in ("p", "m") else None
            sp = self.part(fr, src) if src and len(src) == 1 and not names else None
            if sp:
                auto |= {(lp,) + x[1:] for x in st[0] if x[0] == sp}
            self.note(fr, auto, (lp,) + names, fr.e(self.up(fr, rv)))
            return (frozenset(auto), st[1])
        if len(pl) > 1 or pl[0] in self.local_new.get(fr.fn.path, ()):
            p = self.path(fr, pl)
            if p == () and rv[0] in ("use", "ref", "cast") and fr.e(self.up(fr, rv))[:3] in self.new:
                return st       # the nested parser itself is moved
            if p is not None:
                auto = {x for x in auto if x[:len(p)] != p}
                ws = [(p, fr.e(self.up(fr, rv)))]
                if rv[0] == "agg" and rv[1][0] == "adt" and len(rv[1]) > 3:
                    ws = [(p + (n,), fr.e(fr.fn.sym_op(o))) for n, o in zip(rv[1][3], rv[2])]
                    for q, e in ws:         # `..base` keeps what the base had
                        if e[0] == "field" and e[2] == q[-1] and self.isnew(e[1]):
                            auto |= {x for x in st[0] if x[:len(q)] == q}
                for q, e in ws:
                    self.note(fr, auto, q, e)
                src = rv[1][1] if rv[0] == "use" and rv[1][0] in ("p", "m") else None
                sp = self.part(fr, src) if src and len(src) == 1 and p == ("ctx",) else None
                if sp:
                    auto |= {("ctx",) + x[1:] for x in st[0] if x[0] == sp}
        return (frozenset(auto), st[1])

    def up(self, fr, rv):
        return fr.fn.sym_rv(rv)

    def note(self, fr, auto, q, e):
        if q[0].startswith("$"):
            tmp = set()
            self.note(fr, tmp, ("ctx",) + q[1:], e)
            auto |= {q[:1] + x[1:] for x in tmp}
            return
        P, fn = self.P, fr.fn
        if q == ("include_resolver",) and e[0] == "var" and self.matched_resolver(fn, e):
            auto.add(q)
        elif q == ("strict",) and of_self(e, "strict"):
            auto.add(q)
        elif q == ("include_resolver",) and contains_self(e, "include_resolver") and self.keeps_resolver(e):
            auto.add(q)
        elif q == ("ctx",) and e[0] == "call" and e[1].endswith("ParseContext::clone_for_cell") and of_self(e[2][0], "ctx"):
            auto.add(q)
        elif q == ("ctx", MAXF) and is_limit(P, fn, e):
            auto.add(q)
        elif q == ("ctx", BASEF) and depth_of(P, fn, e) is not None:
            auto.add(q)
        elif q == ("document", "meta") and (of_self(e, "document", "meta") or e[0] == "call" and
                                            e[1].endswith("DocumentMeta::clone_for_cell") and of_self(e[2][0], "document", "meta")):
            auto.add(q)
        elif q == ("document", "anchors") and of_self(e, "document", "anchors"):
            auto.add(q)

    def keeps_resolver(self, e):
        if e[0] == "call" and e[1].endswith("::map") and e[2][1][0] == "closure":
            c = self.P.fns.get(e[2][1][1])
            return bool(c) and expr_any(c.sym_local(0), lambda x: x[0] == "call" and x[1].endswith("clone_box"))
        return e[0] in ("call", "field")

    def matched_resolver(self, fn, e):
        """a match on self.include_resolver: cloned in one arm, None only in its None arm"""
        some = False
        for bi, _, k, pay in fn.defs().get(e[2], ()):
            v = fn.sym_rv(pay) if k == "rv" else fn.sym_call(pay) if k == "call" else None
            if v is None:
                return False
            if expr_any(v, lambda x: x[0] == "call" and x[1].endswith("clone_box")):
                some = True
                continue
            if not (v[0] == "variant" and v[2] == "None"):
                return False
            b = bi
            while True:
                ps = fn.preds()[b]
                if len(ps) != 1:
                    return False
                t = fn.blocks[ps[0]]["t"]
                if t[0] == "switch":
                    d = fn.sym_op(t[1])
                    if not (d[0] == "discr" and contains_self(d[1], "include_resolver")):
                        return False
                    break
                b = ps[0]
        return some

    def call(self, fr, bi, t, names, args, st):
        pl = t[3]
        p = None
        if self.part(fr, pl) and (len(pl) == 1 or isinstance(pl[-1], (list, tuple)) and pl[-1][0] == "f"):
            p = (self.part(fr, pl),) + tuple(x[1] for x in pl[1:] if isinstance(x, (list, tuple)) and x[0] == "f")
        elif len(pl) > 1:
            p = self.path(fr, pl)
        if p is not None:
            auto = {x for x in st[0] if x[:len(p)] != p}
            self.note(fr, auto, p, fr.e(fr.fn.sym_call(t)))
            return [((frozenset(auto), st[1]), None)]
        return None

    def at_return(self, fr, rv, st):
        if fr.fn.path == self.rootp:
            self.nret += 1
            miss = [w for w in WANT if w not in st[0]]
            if miss:
                self.bad.append(miss)
        return st


WANT = [("strict",), ("include_resolver",), ("ctx",), ("ctx", MAXF), ("ctx", BASEF), ("document", "meta"), ("document", "anchors")]
SAYS = {("strict",): "strict mode", ("include_resolver",): "the include resolver", ("ctx",): "the enclosing parser's context",
        ("ctx", MAXF): "the include depth limit", ("ctx", BASEF): "the include depth reached so far",
        ("document", "meta"): "the document's metadata (safe mode, job attributes)", ("document", "anchors"): "the shared anchors"}


def nested(P, R):
    roots = []
    for f in P.bodies({CRATE}):
        if f.kind == "Closure" or not any("parser::Parser<" in f.ty(i) for i in range(1, f.argc + 1)):
            continue
        for bi, t in f.calls():
            n = short(t[1][2] or t[1][1]) if t[1][0] == "fn" else ""
            if n in ("Parser::new", "Parser::from_str", "Parser::from_lexer"):
                roots.append((f, t))
    if not roots:
        raise MissingAnchor("a Parser built by a Parser (table cells)")
    for f, t in roots:
        R.count("nested parsers", 1)
        scope = {p for p, *_ in P.callgraph().get(f.path, ()) if p in P.fns and P.fns[p].crate == CRATE and any(
            "&mut" in P.fns[p].ty(i) and "parser::Parser<" in P.fns[p].ty(i) for i in range(1, P.fns[p].argc + 1))}
        s = Build(P, R, scope)
        s.rootp, s.rootn = f.path, f.short
        new = {f.sym_local(t[3][0])} if len(t[3]) == 1 else set()
        local = set(t[3][:1])
        # moved / named copies
        for l in range(len(f.locals)):
            e = f.sym_local(l)
            if e in new or e[0] == "call" and e[1] in ("Parser::new", "Parser::from_str", "Parser::from_lexer"):
                local.add(l)
                new.add(e)
            for _, _, k, pay in f.defs().get(l, ()):
                if k == "rv" and (pay[0] == "use" and f.sym_rv(pay) in new or pay[0] == "agg" and pay[1][0] == "adt" and
                                  pay[1][1].endswith("::Parser")):
                    local.add(l)
                    new.add(f.sym_local(l))
                    new.add(("var", f.lname(l) or "_%d" % l, l))
        s.new = new
        s.local_new = {f.path: local}
        Explorer(s, P).run(f, tuple(("arg", i, f.lname(i) or "") for i in range(1, f.argc + 1)), (frozenset(), frozenset()))
        if s.bad or not s.nret:
            for m in sorted(set(x for b in s.bad for x in b)):
                R.bad("nested:%s:%s" % (f.short, ".".join(m)),
                      "%s: on some path the nested parser is not given %s (`%s`)" % (where(f, t[5]), SAYS[m], ".".join(m)))
        else:
            R.ok("%s: the nested parser is given %s" % (where(f, t[5]), ", ".join(SAYS[w] for w in WANT)))


def clones(P, R):
    f = P.one("ParseContext::clone_for_cell", CRATE)
    got = {}
    for b in f.blocks:
        for pl, rv, ln in b["s"]:
            if rv[0] != "dead":
                for n, e in field_writes(f, pl, rv):
                    if n in SHARED:
                        got.setdefault(n, []).append((e, ln))
    for n in SHARED:
        es = got.get(n, [])
        R.check(bool(es) and all(of_self(e, n) for e, _ in es), "shared:" + n,
                "%s: a table cell shares `%s` with the enclosing document" % (f.short, n) if es and all(of_self(e, n) for e, _ in es)
                else "%s: a table cell no longer shares `%s` with the enclosing document" % (where(f, es[0][1] if es else f.line), n))
    f = P.one("DocumentMeta::clone_for_cell")
    # the result starts as a clone of self and only the listed attributes are taken away
    scope = [f] + [P.fns[c] for c, *_ in P.callgraph().get(f.path, ()) if c in P.fns and P.fns[c].short.split("::")[-1] != "remove_attr"
                   and P.fns[c].short.startswith("DocumentMeta::") and P.fns[c].short != "DocumentMeta::set_doctype"]
    n = 0
    for g in scope:
        for bi, t in g.calls():
            e = g.sym_call(t)
            if e[0] != "call":
                continue
            if e[1] == "DocumentMeta::remove_attr" or e[1].endswith("::remove") and expr_any(
                    e[2][0], lambda x: x[0] == "field" and x[2] in ("job_attrs", "doc_attrs", "header_attrs")):
                n += 1
                names = [a[1] for a in e[2][1:] if a[0] == "k" and isinstance(a[1], str)] or loop_names(g, e[2][1:])
                R.check(bool(names) and set(names) <= CELL_REMOVED, "cell-attr:%s" % ",".join(map(str, names)),
                        "%s: removes %s from the metadata a table cell sees%s" % (
                            where(g, t[5]), names or "an attribute", "" if names and set(names) <= CELL_REMOVED else
                            " - only toc placement and title attributes may be dropped"))
            elif e[1].split("::")[-1] in ("clear", "retain", "drain", "default", "take"):
                R.bad("cell-meta:" + e[1], "%s: `%s` discards metadata a table cell must see" % (where(g, t[5]), e[1]))
    R.count("cell metadata removals", n)
    ret = f.sym_local(0)
    vs = [f.sym_rv(p) if k == "rv" else f.sym_call(p) for _, _, k, p in f.defs().get(0, ()) if k != "part"]
    def root(e, d=0):
        if e[0] == "arg":
            return True
        if e[0] == "var" and d < 4:
            ds = [x for x in f.defs().get(e[2], ()) if x[2] != "part"]
            return bool(ds) and all(root(f.sym_rv(p) if k == "rv" else f.sym_call(p), d + 1) for _, _, k, p in ds)
        return False
    R.check(all(root(v) for v in vs) and bool(vs), "cell-clone", "%s: the cell's metadata is a clone of the document's" % f.short)


def loop_names(g, args):
    """`for k in [..] { remove(k) }`"""
    out = []
    for a in args:
        if expr_any(a, lambda x: x[0] == "call" and x[1].endswith("::next")) or a[0] in ("var", "field"):
            for b in g.blocks:
                for pl, rv, ln in b["s"]:
                    if rv[0] == "agg" and rv[1][0] == "array":
                        out += strs(g.sym_rv(rv))
                    elif rv[0] in ("use", "cast"):
                        out += [s for s in strs(g.sym_rv(rv))]
    return out


def run(P, R, tier):
    R.rule("a nested parser receives, as its last writes on every path: " + ", ".join(SAYS.values()))
    R.rule("an included source is entered only after `depth from the root < limit <= max-include-depth`")
    nested(P, R)
    clones(P, R)
    depth_rule(P, R)
    writes(P, R)
    R.floor("source entries", 1)
    R.floor("nested parsers", 1)
    R.floor("limit/depth writes", 2)
