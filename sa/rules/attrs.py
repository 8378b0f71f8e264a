"""Who may set an attribute, and whose value wins: shared by S01, S02 and S05."""
from common import where, strs, expr_any, iter_array, loop_elems
from mir import short, fmt, strip_generics
from engine import Explorer, Spec, norm_bool

DOC_MAPS = ("doc_attrs", "header_attrs")
JOB_ONLY_SPEC = ["allow-uri-read", "max-attribute-value-size", "max-include-depth", "doc", "docdir", "docfile",
                 "docfilesuffix", "docname"]
HEADER_ONLY_SPEC = ["doctype", "stylesheet", "stylesdir", "linkcss", "copycss", "webfonts", "author", "authors", "email",
                    "firstname", "lastname", "middlename", "authorinitials", "revdate", "revnumber", "revremark", "title",
                    "doctitle", "description", "keywords", "copyright", "orgname", "lang", "nolang", "experimental",
                    "reproducible", "skip-front-matter", "last-update-label", "manname-title", "toc-title", "toc-class",
                    "untitled-label", "version-label", "app-name", "css-signature"]
LOCKED = ["data-uri", "allow-uri-read", "max-include-depth"]


def table(P, name):
    out = []
    for fn in P.fns.values():
        if name in fn.path:
            for b in fn.blocks:
                for pl, rv, ln in b["s"]:
                    out += strs(fn.sym_rv(rv))
                if b["t"][0] == "call":
                    out += strs(fn.sym_call(b["t"]))
    return set(out)


def template(e):
    """literal pieces and None for each argument of a format call"""
    if e[0] == "call" and e[1] in ("format", "fmt::format"):
        e = e[2][0]
    if e[0] == "call" and e[1] == "Arguments::new":
        bs, args = e[2][0], e[2][1]
        if bs[0] == "k" and isinstance(bs[1], tuple):
            out, i, b = [], 0, bs[1]
            while i < len(b) and b[i] != 0:
                if b[i] < 0x80:
                    out.append(bytes(b[i + 1:i + 1 + b[i]]).decode("utf8", "replace"))
                    i += 1 + b[i]
                elif b[i] == 0x80:
                    n = b[i + 1] | b[i + 2] << 8
                    out.append(bytes(b[i + 3:i + 3 + n]).decode("utf8", "replace"))
                    i += 3 + n
                else:
                    out.append(None)
                    n = 1
                    # flags 1 = options (4), 2 = width (2), 4 = precision (2), 8 = index (2)
                    f = b[i] & 0x3f
                    i += 1 + (4 if f & 1 else 0) + (2 if f & 2 else 0) + (2 if f & 4 else 0) + (2 if f & 8 else 0)
            return out
    if e[0] == "call" and e[1].startswith("Arguments::from_str") and e[2][0][0] == "k":
        return [e[2][0][1]]
    return None


def job_lookup(e):
    return e[0] == "call" and len(e[2]) == 2 and expr_any(e[2][0], lambda x: x[0] == "field" and x[2] == "job_attrs") \
        and e[1].endswith("::get")


def mutates(P, fn, t):
    """call with a mutable receiver"""
    f = t[1]
    if f[0] != "fn" or not t[2]:
        return False
    o = t[2][0]
    return o[0] in ("p", "m") and "&mut" in fn.ty(o[1][0])[:5]


class KeySpec(Spec):
    """explores one function; records events with the facts known about table tests and the job's lock"""

    def __init__(self, P, event, helpers=()):
        self.P, self.event, self.ev, self.helpers = P, event, [], set(helpers)

    def track(self, fr, e, kind):
        if kind == "bool":
            e = norm_bool(e)
            if e[0] == "call" and e[1].endswith("::contains") and len(e[2]) == 2:
                nm = static_name(e[2][0])
                if nm:
                    return ("in", nm, e[2][1])
            if ro_test(self.P, e):
                return ("ro",)
            if e[0] == "isvar" and job_lookup(e[1]):
                return ("jobset",) if e[2] == ("Some",) else None
            if e[0] == "eq" and e[2][0] == "k" and isinstance(e[2][1], str):
                return ("key", e[1], e[2][1])
        if kind == "discr" and e[2] == "Option" and job_lookup(e[1]):
            return ("job",)
        return None

    def learn(self, facts, key, v):
        if key[0] == "key":
            d = dict(facts)
            if v and any(k[0] == "key" and k[1] == key[1] and k[2] != key[2] and x for k, x in d.items()):
                return None
            if not v:
                return facts
        return facts | {(key, v)}

    def descend(self, path):
        return path in self.helpers

    def call(self, fr, bi, t, names, args, st):
        x = self.event(fr, t, names, args)
        if x:
            self.ev.append((fr.fn, t[5], x, args, dict(st[1])))
        return None

    def assign(self, fr, bi, pl, rv, line, st):
        h = getattr(self, "on_assign", None)
        if h:
            x = h(fr, pl, rv)
            if x:
                self.ev.append((fr.fn, line, x, (fr.e(fr.fn.sym_rv(rv)),), dict(st[1])))
        return st


def static_name(e):
    if e[0] == "const":
        return e[1].split("::")[-1]
    if e[0] == "k" and e[1] is None and len(e) > 2:
        return e[2].replace("&", "").split("::")[-1].strip()
    return None


def ro_test(P, e, d=0):
    if e[0] == "field" and e[2] == "readonly":
        return expr_any(e[1], job_lookup) or e[1][0] in ("arg", "elem")
    if e[0] == "call" and e[1] in ("Option::is_some_and", "Option::map_or") and job_lookup(e[2][0]) and \
            e[2][-1][0] == "closure":
        c = P.fns.get(e[2][-1][1])
        return bool(c) and expr_any(c.sym_local(0), lambda x: x[0] == "field" and x[2] == "readonly")
    if e[0] == "call" and d < 2:
        for f in P.fns.values():
            if f.short == e[1] and f.ty(0) == "bool" and len(f.blocks) < 12 and e[1].split("::")[0] in (
                    "DocumentMeta", "JobAttrs", "Parser"):
                if ro_test(P, f.sym_local(0), d + 1):
                    return True
    return False


def locked_out(facts):
    """the job did not make the attribute read-only"""
    return facts.get(("ro",)) is False or facts.get(("job",)) == frozenset(["None"]) or facts.get(("jobset",)) is False


def run_args(fn):
    return [("arg", i + 1, fn.lname(i + 1) or "_%d" % (i + 1)) for i in range(fn.argc)]


def precedence(P, R):
    """a read-only job value is returned before document maps are consulted"""
    R.rule("lookup: document attribute maps are consulted only when the job has no read-only value for the key")
    g = P.one("<DocumentMeta as ReadAttr>::get")
    helpers = {f.path for f in P.bodies() if f.crate == g.crate and (
        "DocumentMeta" in f.path) and f.path != g.path}

    def event(fr, t, names, args):
        if args and args[0][0] == "field" and args[0][2] in DOC_MAPS and names[1].endswith("::get"):
            return args[0][2]
        return None
    sp = KeySpec(P, event, helpers)
    ex = Explorer(sp, P)
    ex.run(g, run_args(g), (0, frozenset()))
    R.count("document-map reads in attribute lookup", len({(f.path, l) for f, l, *_ in sp.ev}))
    R.floor("document-map reads in attribute lookup", 1)
    ok = True
    for fn, line, m, args, facts in sp.ev:
        if not locked_out(facts):
            ok = False
            R.bad("precedence:" + m, "attribute lookup consults `%s` at %s although the job may hold a read-only value"
                  % (m, where(fn, line)))
            break
    if ok:
        R.ok("lookup gives read-only job values precedence over document values on every path")


def raw_self(t):
    """a call that reads an attribute map itself instead of the document's attributes"""
    f = t[1]
    st = strip_generics(str(f[3] or ""))
    return st.split("::")[-1].lstrip("&") == "Attrs" and "ReadAttr" in (f[1] or "")


def bypass(P, R, g):
    """no reader looks into a document map without asking for the job's value first"""
    R.rule("readers: outside the lookup itself no function reads a document attribute map (directly, through an accessor or a lookup helper)")
    raw, sites, rev = set(), {}, {}
    access = {f.path for f in P.bodies() if f.crate == g.crate and "DocumentMeta" in f.path and f.argc == 1
              and f.ty(0).startswith("&") and strip_generics(f.ty(0)).split("::")[-1] == "Attrs"}
    for f in P.bodies():
        for b in f.blocks:
            t = b["t"]
            if t[0] != "call" or t[1][0] != "fn":
                continue
            for c in P.callees(t[1]):
                rev.setdefault(c, set()).add((f.path, t[5]))
            if raw_self(t) and len(t[2]) > 1:
                k = key_const(f.sym_op(t[2][1]))
                if "DocumentMeta" in f.path and k and appends(f, k):
                    continue
                raw.add(f.path)
                sites.setdefault(f.path, t[5])
            elif P.callees(t[1]) and set(P.callees(t[1])) & access:
                raw.add(f.path)
                sites.setdefault(f.path, t[5])
    R.count("functions that read a document attribute map", len(raw))
    R.floor("functions that read a document attribute map", 1)
    owner = lambda p: p.split("::{closure")[0]
    inner = {g.path}
    grow = True
    while grow:
        grow = False
        for p in [p for p in P.fns if p not in inner and P.fns[p].crate == g.crate and
                  ({owner(q) for q, _ in rev.get(p, ())} or {owner(p)} - {p})]:
            callers = {owner(q) for q, _ in rev.get(p, ())} | ({owner(p)} if owner(p) != p else set())
            if callers and callers <= inner:
                inner.add(p)
                grow = True
    bad = False
    for p in sorted(raw - inner):
        f = P.fns[p]
        outs = sorted((q, l) for q, l in rev.get(p, ()) if q not in inner)
        via = ""
        if f.crate == g.crate and outs:
            via = ", and %s (%s) uses it" % (P.fns[outs[0][0]].short, where(P.fns[outs[0][0]], outs[0][1]))
        bad = True
        R.bad("bypass:" + f.short, "%s: %s reads a document attribute map without the job's read-only values being consulted%s"
              % (where(f, sites[p]), f.short, via))
    if not bad:
        R.ok("every reader goes through the lookup")


def appends(f, k):
    """does f also set the attribute it reads (extending its value)?"""
    for b in f.blocks:
        t = b["t"]
        if t[0] == "call" and t[1][0] == "fn" and "insert" in short(t[1][2] or t[1][1]) and len(t[2]) > 1:
            if key_const(f.sym_op(t[2][1])) == k:
                return True
    return False


def key_const(e):
    return e[1] if e[0] == "k" and isinstance(e[1], str) else None


def setters(P, R, spec_jobonly=None, header=True):
    """every write of a document map is gated by the name tables"""
    R.rule("who-may-set: header_attrs[k] := v only if k is not host-only; doc_attrs[k] := v only if k is neither "
           "host-only nor header-only" if header else
           "who-may-set: a document map entry k := v is written only if k is not host-only")
    jo, ho = table(P, "JOB_ONLY"), table(P, "HEADER_ONLY")
    need = spec_jobonly or JOB_ONLY_SPEC
    for n in need:
        R.check(n in jo, "table:JOB_ONLY:" + n, "`%s` is listed as settable only by the embedding job" % n)
    if header:
        for n in HEADER_ONLY_SPEC:
            R.check(n in ho, "table:HEADER_ONLY:" + n, "`%s` is listed as settable only in the document header" % n)
    R.count("entries of JOB_ONLY", len(jo))

    def event(fr, t, names, args):
        if args and args[0][0] == "field" and args[0][2] in DOC_MAPS and mutates(P, fr.fn, t):
            return (args[0][2], names[0])
        return None
    sites = set()
    for fn in P.bodies():
        for bi, t in fn.calls():
            if t[1][0] == "fn" and t[2] and mutates(P, fn, t):
                e = fn.sym_op(t[2][0])
                if e[0] == "field" and e[2] in DOC_MAPS and expr_any(e, lambda x: True):
                    sites.add(fn.path)
                    R.count("writes of document attribute maps", 1)
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f" and pl[-1][1] in DOC_MAPS:
                    e = fn.sym_rv(rv)
                    emp = e[0] == "call" and e[1].endswith(("::empty", "::default", "::new")) and not e[2]
                    R.check(emp, "replace:%s:%s" % (pl[-1][1], fn.short),
                            "a document attribute map is replaced only by an empty one: " + where(fn, ln))
    R.floor("writes of document attribute maps", 2)
    testers = table_testers(P, sites)
    for p in sorted(sites):
        fn = P.fns[p]
        sp = KeySpec(P, event, testers)
        Explorer(sp, P).run(fn, run_args(fn), (0, frozenset()))
        for f, line, (m, callee), args, facts in sp.ev:
            last = callee.split("::")[-1]
            if last in ("remove", "clear", "reserve", "get_mut"):
                continue
            k = args[1] if len(args) > 1 else ("?",)
            judge(P, R, fn, line, m, k, facts, jo, ho if header else None, 0)


def table_testers(P, exclude):
    """small helpers that evaluate a name-table or lock test"""
    out = set()
    for fn in P.bodies():
        if fn.path in exclude or len(fn.blocks) > 60 or fn.kind == "Closure":
            continue
        for bi, t in fn.calls():
            if t[1][0] != "fn":
                continue
            e = fn.sym_call(t)
            if e[0] == "call" and e[1].endswith("::contains") and static_name(e[2][0]) in ("JOB_ONLY", "HEADER_ONLY"):
                out.add(fn.path)
            elif job_lookup(e):
                out.add(fn.path)
    more = {c for p in out for c in P.rev().get(p, ()) if c in P.fns and c not in exclude and len(P.fns[c].blocks) < 25
            and P.fns[c].crate == "asciidork_core"}
    return (out | more) - set(exclude)


def judge(P, R, fn, line, m, k, facts, jo, ho, depth):
    c = key_const(k)
    for (kk, v) in facts.items():
        if kk[0] == "key" and v and kk[1] == k:
            c = kk[2]
    forbidden = jo | (ho if m == "doc_attrs" and ho else set())
    if c is not None:
        R.check(c not in jo, "set:%s:%s" % (fn.short, c),
                "%s sets the constant key `%s`, which is not host-only" % (fn.short, c))
        return
    tpl = template(k)
    if tpl and tpl[0]:
        R.check(not any(x.startswith(tpl[0]) for x in forbidden), "set:%s:%s" % (fn.short, tpl[0]),
                "%s sets keys starting `%s`, none of them host-only" % (fn.short, tpl[0]))
        return
    j = facts.get(("in", "JOB_ONLY", k)) is False
    h = ho is None or m != "doc_attrs" or facts.get(("in", "HEADER_ONLY", k)) is False
    if j and h:
        R.ok("%s: `%s` written only after the name table tests failed" % (fn.short, m))
        return
    if k[0] == "arg" and depth < 3 and not j:
        cs = [P.fns[x] for x in P.rev().get(fn.path, ()) if x in P.fns]
        idx = k[1] - 1
        if cs:
            for cfn in cs:
                def ev2(fr, t, names, args, fn=fn):
                    return "c" if fn.path in P.callees(names[2]) else None
                sp = KeySpec(P, ev2, table_testers(P, {fn.path, cfn.path}))
                Explorer(sp, P).run(cfn, run_args(cfn), (0, frozenset()))
                for f, ln, x, args, fa in sp.ev:
                    judge(P, R, cfn, ln, m, args[idx], fa, jo, ho, depth + 1)
            return
    R.bad("set:%s:%s" % (fn.short, m),
          "`%s` at %s is set for a key that was not tested against %s: %s" % (
              m, where(fn, line), "the host-only names" if not j else "the header-only names", fmt(k)))


def job_writes(P, R):
    """job attributes are written and removed only under constant names, never the policy ones for removal"""
    R.rule("library code writes/removes job attributes only under constant names; policy attributes are never removed")
    lib = {"asciidork_parser", "asciidork_core", "asciidork_eval", "asciidork_backend", "asciidork_backend_html5s",
           "asciidork_dr_html_backend", "asciidork_ast"}

    def names_of(fn, e, depth=0):
        c = key_const(e)
        if c is not None:
            return [c]
        el = loop_elems(fn, e)
        if el is not None:
            return [n for x in el for n in names_of(fn, x, depth + 1)]
        if e[0] == "arg" and depth < 3 and fn.kind == "Closure":
            # closure applied to the elements of an array literal
            out = []
            for x in P.rev().get(fn.path, ()):
                cf = P.fns.get(x)
                for bi, t in cf.calls() if cf is not None else ():
                    if t[1][0] == "fn" and t[1][1].split("::")[-1] in ("for_each", "try_for_each") and expr_any(
                            cf.sym_op(t[2][1]), lambda y: y[0] == "closure" and y[1] == fn.path):
                        el = iter_array(cf, cf.sym_op(t[2][0]))
                        out += [n for y in el for n in names_of(cf, y, depth + 1)] if el is not None else [None]
            return out or [None]
        if e[0] == "arg" and depth < 3:
            out = []
            for x in P.rev().get(fn.path, ()):
                cf = P.fns.get(x)
                if cf is None or cf.crate not in lib:
                    continue
                for bi, t in cf.calls():
                    if fn.path in P.callees(t[1]):
                        out += names_of(cf, cf.sym_op(t[2][e[1] - 1]), depth + 1) or [None]
            return out
        return [None]
    for fn in P.bodies(lib):
        for bi, t in fn.calls():
            if t[1][0] != "fn":
                continue
            n = short(t[1][2] or t[1][1])
            rm = n in ("DocumentMeta::remove_attr", "JobAttrs::remove")
            wr = n in ("DocumentMeta::insert_job_attr", "JobAttrs::insert", "JobAttrs::insert_unchecked")
            if not (rm or wr) or fn.short.startswith(("<JobAttrs as", "JobAttrs::")):
                continue
            R.count("job attribute writes/removals", 1)
            for c in names_of(fn, fn.sym_op(t[2][1])):
                if c is None:
                    R.bad("job-write:" + fn.short, "a job attribute is %s under a name the analysis cannot bound: %s" % (
                        "removed" if rm else "written", where(fn, t[5])))
                elif rm:
                    R.check(c not in LOCKED and c not in JOB_ONLY_SPEC, "job-remove:%s:%s" % (fn.short, c),
                            "removal of `%s` does not touch a host-policy attribute" % c)
                else:
                    R.ok("job attribute `%s` written under a constant name in %s" % (c, fn.short))
    R.floor("job attribute writes/removals", 4)


def caches(P, R):
    """parser-side copies of an attribute (doctype, level offset) respect the job's lock"""
    R.rule("cached copies (doctype, leveloffset) change on behalf of the document only if the job did not lock them")
    writers = set()
    for fn in P.bodies():
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f" and pl[-1][1] == "doctype" and \
                        "DocumentMeta" in pl[-1][2]:
                    writers.add(fn.path)

    def jobish(e):
        return expr_any(e, lambda x: x[0] == "field" and x[2] in ("job_attrs", "doctype") and True) or \
            expr_any(e, lambda x: x[0] == "call" and x[1] == "JobAttrs::get")
    n = 0
    for w in sorted(writers):
        wf = P.fns[w]
        for x in P.rev().get(w, ()):
            cf = P.fns[x]

            def ev(fr, t, names, args, w=w):
                return "doctype" if w in P.callees(names[2]) else None
            sp = KeySpec(P, ev, table_testers(P, {cf.path}))
            Explorer(sp, P).run(cf, run_args(cf), (0, frozenset()))
            for f, ln, k, args, facts in sp.ev:
                n += 1
                v = args[1] if len(args) > 1 else ("?",)
                ok = v[0] == "variant" or jobish(v) or locked_out(facts)
                R.check(ok, "cache:doctype:" + cf.short, "the document type is set from the document only when the job "
                        "did not fix it: %s" % where(cf, ln))
    # level offset
    adj = [f for f in P.bodies() if any("&mut i8" in f.ty(i) for i in range(1, f.argc + 1))]
    for a in adj:
        for x in P.rev().get(a.path, ()):
            cf = P.fns[x]

            def ev(fr, t, names, args, a=a):
                if a.path in P.callees(names[2]) and args and args[0][0] == "field" and args[0][2] == "leveloffset" \
                        and expr_any(args[0], lambda y: y[0] == "field" and y[2] == "ctx"):
                    return "leveloffset"
                return None
            sp = KeySpec(P, ev, table_testers(P, {cf.path}))
            Explorer(sp, P).run(cf, run_args(cf), (0, frozenset()))
            for f, ln, k, args, facts in sp.ev:
                n += 1
                ok = jobish(args[1]) or locked_out(facts)
                R.check(ok, "cache:leveloffset:" + cf.short, "the level offset is changed on behalf of the document only "
                        "when the job did not fix it: %s" % where(cf, ln))
    R.count("cached attribute updates", n)
    R.floor("cached attribute updates", 1)
