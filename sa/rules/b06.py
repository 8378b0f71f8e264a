"""Author-requested link constraints reach the `<a>` tag.

Path enumeration (typestate over MIR) in two parts.
1. The emitters - functions of the backend crates whose text contains `target`/`rel`
   attribute markup.  Each is interpreted abstractly (absint), every path with the author's
   options as facts; the literal and dynamic pieces it emits are read as HTML attributes.
2. The users - functions that open an `<a>` tag for a link the author wrote.  Every path
   that opens the tag must hand the attribute list to an emitter before the tag is done."""
import re
from common import where, expr_any, strs
from engine import Explorer, Spec, Budget
from mir import MissingAnchor, fmt, strip_generics
import absfn, absint

PUSH = {"push", "push_str", "push_ch", "push_char", "write_str"}


def in_backend(fn):
    return "backend" in fn.crate or "html5s" in fn.crate


def lits(P, fn):
    out = []
    for b in fn.blocks:
        for pl, rv, ln in b["s"]:
            for o in ops(rv):
                out += strs(fn.sym_op(o))
        if b["t"][0] == "call":
            for o in b["t"][2]:
                out += strs(fn.sym_op(o))
    return out


def ops(rv):
    k = rv[0]
    if k in ("use", "cast", "repeat"):
        return [rv[1]]
    if k == "bin":
        return rv[2:4]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def named(e, key):
    """an expression denoting `attrs.named(key)` or its payload"""
    while e[0] in ("as", "field", "ref"):
        e = e[1]
    return e[0] == "call" and e[1].split("::")[-1] in ("named", "named_with_loc") and ("k", key) in e[2]


def pieces(e, out):
    if e[0] == "k" and isinstance(e[1], str):
        out.append(("l", e[1]))
    elif e[0] in ("array", "tuple"):
        for x in e[1]:
            pieces(x, out)
    elif e[0] == "ref":
        pieces(e[1], out)
    else:
        out.append(("d", "window" if named(e, "window") else fmt(e)))
    return out


class Base(Spec):
    max_states = 200000
    exact_option = True

    def keep_ret(self, fr, l, rv):
        return fr.fn.ty(l).endswith("str")

    def __init__(self, P, helpers):
        self.P, self.helpers = P, helpers

    def track_local(self, fr, l):
        return fr.fn.ty(l) in ("&str", "&'static str") or fr.fn.ty(l).endswith("str")

    def descend(self, path):
        return path in self.helpers or self.P.fns[path].kind == "Closure" and in_backend(self.P.fns[path])

    def track(self, fr, e, kind):
        if kind == "discr" and e[2] == "Option":
            if named(e[1], "window"):
                return ("window",)
            return ("d", e[1])
        if kind != "bool":
            return None
        if e[0] == "isvar":
            return ("window?", e[2]) if named(e[1], "window") else e
        if e[0] == "call" and e[1].split("::")[-1] in ("has_option", "has_opt") and len(e[2]) > 1 and e[2][-1][0] == "k":
            return ("opt", e[2][-1][1])
        if ("k", "_blank") in e[1:3] or e[0] in ("eq", "call", "bin") and "_blank" in strs(e):
            if expr_any(e, lambda x: named(x, "window")):
                return ("blank",)
        if e[0] == "arg":
            return e
        return None

    def learn(self, facts, key, v):
        d = dict(facts)
        if key[0] in ("window?", "isvar"):
            k2 = ("window",) if key[0] == "window?" else ("d", key[1])
            names = key[1] if key[0] == "window?" else key[2]
            if set(names) <= {"Some", "None"}:
                want = frozenset(names) if v else frozenset({"Some", "None"}) - frozenset(names)
                if k2 in d and not (d[k2] & want):
                    return None
                facts = facts | {(k2, want)} if k2 not in d else facts
        return facts | {(key, v)}


def emit_paths(P, fn):
    """[(pieces, facts)] of an emitter, from the abstract interpretation of its body"""
    recv = None
    t1 = strip_generics(fn.ty(1)) if fn.argc else ""
    for a in P.adts:
        if a.split("::")[-1] == t1.replace("&mut ", "").split("::")[-1].strip():
            recv = a
    if recv:
        flds = [(n, P.adts[recv]["types"][t] if isinstance(t, int) else t) for n, t, *_ in P.adts[recv]["variants"][0][2]]
        buf = [n for n, t in flds if t.endswith("string::String")][:1]
        buf = "html" if any(n == "html" for n, _ in flds) else buf[0] if buf else None
    else:
        # a provided method: take a backend that uses it
        recv = sorted(a for a in P.adts if a.split("::")[-1] == "Html5s")[0]
        buf = absint.backend_cfg(P, recv)["html"]
    res, I = absfn.paths(P, fn, recv, buf)
    out = set()
    for facts, b, rv, s in res:
        if b[0] not in ("T",):
            raise Budget("the text emitted by %s is not followed" % fn.short)
        parts = []
        for k, v in b[1]:
            if k == "l":
                parts.append(("l", v))
            else:
                while v[0] == "app" and v[1] == "esc":
                    v = v[2][0]
                if v[0] == "k" and isinstance(v[2], str):
                    v = ("T", (("l", v[2]),))
                if v[0] == "T" and all(x[0] == "l" for x in v[1]):
                    parts += v[1]
                    continue
                parts.append(("d", "window" if aname(v, "window") else absint.vrepr(v)))
        F = {}
        for key, con in facts.items():
            if key[0] == "discr" and aname(key[1], "window") and con[0] == "=":
                F[("window",)] = frozenset(["Some" if con[1] == 1 else "None"])
            elif key[0] == "val" and aname(key[1], "window"):
                if con == ("=", "_blank"):
                    F[("blank",)] = True
                elif con[0] == "!" and "_blank" in con[1] or con[0] == "=":
                    F[("blank",)] = False
            elif key[0] == "b" and con[0] == "=" and key[1][0] == "app" and key[1][1].split("::")[-1] == "has_option":
                F[("opt", key[1][2][-1][2])] = bool(con[1])
            elif key[0] == "b" and con[0] == "=" and key[1][0] == "a":
                F[("arg", key[1][1])] = bool(con[1])
        out.add((merge((), parts), frozenset(F.items())))
    return out


def merge(parts, new):
    out = list(parts)
    for p in new:
        if p[0] == "l" and out and out[-1][0] == "l":
            out[-1] = ("l", out[-1][1] + p[1])
        elif p != ("l", ""):
            out.append(p)
    return tuple(out)


def aname(v, key):
    while v[0] in ("as", "f", "ref") and isinstance(v[1], tuple):
        v = v[1]
    return v[0] == "app" and v[1].split("::")[-1] == "named" and ("k", "s", key) in v[2]


def attrs_of(parts):
    """{name: [value pieces]}, problem"""
    text, dyn = "", []
    for k, v in parts:
        if k == "l":
            text += v
        else:
            text += "\x00%d\x01" % len(dyn)
            dyn.append(v)
    out, prob = {}, None
    rest = text
    for m in re.finditer(r'\s([a-z-]+)="([^"]*)"', text):
        n = m.group(1)
        if n in out and n in ("target", "rel"):
            prob = "two `%s` attributes" % n
        out[n] = m.group(2)
        rest = rest.replace(m.group(0), " ", 1)
    if re.search(r'\b(target|rel|noopener|nofollow)\b', rest):
        prob = "`%s` is not written as a complete attribute" % rest.strip()
    return out, prob, dyn


def judge(parts, facts, shorthand):
    """problem with the attributes on one path"""
    at, prob, dyn = attrs_of(parts)
    if prob:
        return prob
    F = dict(facts)
    rel = set(at.get("rel", "").split())
    tgt = at.get("target")
    win = F.get(("window",))
    sh = shorthand is not None and F.get(shorthand)
    if "\x00" in at.get("rel", ""):
        return "the value of `rel` cannot be followed"
    wants = sh or win == frozenset(["Some"])
    if wants and tgt is None:
        return "the requested target window is dropped"
    if not sh and win is None and tgt is None:
        return "a path never looks at the `window` attribute"
    if tgt is not None and not wants:
        return "a target window nobody requested is written"
    if tgt is not None:
        m = re.match(r"^\x00(\d+)\x01$", tgt)
        if m:
            if dyn[int(m.group(1))] != "window":
                return "`target` is written with %s instead of the `window` attribute" % dyn[int(m.group(1))]
        elif tgt != "_blank" and not (F.get(("blank",)) and tgt == "_blank"):
            return "`target` is written with `%s`" % tgt
        elif not sh and F.get(("blank",)) is not True:
            return "`target` is `_blank` although the author named another window"
    op, bl, nf = F.get(("opt", "noopener")), F.get(("blank",)), F.get(("opt", "nofollow"))
    if nf is None:
        return "a path never looks at the `nofollow` option"
    if nf != ("nofollow" in rel):
        return "`nofollow` is %s" % ("requested but not written" if nf else "written but not requested")
    if tgt is not None:
        need = True if sh or bl or op else False if bl is False and op is False else None
        if need is not False and "noopener" not in rel:
            return "`rel` lacks `noopener` on a path that can open a new window"
        if need is False and "noopener" in rel:
            return "`noopener` is written for a named window without being requested"
        if need is None and "noopener" not in rel:
            return "a path with a target window does not decide `noopener`"
    if rel - {"noopener", "nofollow", "noreferrer"}:
        return "unknown `rel` value %s" % at["rel"]
    return None


class Use(Base):
    """state: (open, done); open = line where the link's <a> starts"""

    def __init__(self, P, helpers, emitters):
        super().__init__(P, helpers)
        self.emitters, self.errs, self.n = emitters, [], 0

    def descend(self, path):
        return self.P.fns[path].kind == "Closure" and in_backend(self.P.fns[path])

    def call(self, fr, bi, t, names, args, st):
        nm, tn, f = names
        m = nm.split("::")[-1]
        (op, done), facts = st
        if f[0] == "fn" and any(c in self.emitters for c in self.P.callees(f)):
            return [(((op, True), facts), None)]
        starts = False
        if m in PUSH and len(args) > 1:
            x = pieces(args[1], [])
            if x and x[0][0] == "l" and re.match(r"\s*<a\b[^>]*$", x[0][1]):
                starts = True
            elif op and not done and any(q[0] == "l" and ">" in q[1] for q in x):
                self.errs.append((fr.fn, t[5], facts))
        elif nm == "OpenTag::new" and args and args[0] == ("k", "a"):
            starts = True
        elif op and not done and m == "push_open_tag":
            self.leave(fr, t, facts)
            return [(((None, False), facts), None)]
        if starts:
            self.n += 1
            return [(((t[5], False), facts), None)]
        if op and done and m == "push_open_tag":
            return [(((None, False), facts), None)]
        return None

    def leave(self, fr, t, facts):
        F = dict(facts)
        # no attribute list on this path: nothing was requested
        for k, v in facts:
            if k[0] == "d" and v == frozenset(["None"]) and k[1][0] == "arg" and "attrs" in k[1][2]:
                return
        self.errs.append((fr.fn, t[5], facts))


def run(P, R, tier):
    roots, users = [], []
    for fn in P.fns.values():
        if not in_backend(fn) or fn.promoted or fn.kind == "Closure":
            continue
        body = [fn] + [g for g in P.fns.values() if g.parent == fn.path]
        ls = [x for g in body for x in lits(P, g)]
        if any(x in ("target", "rel") or re.search(r'(^|\s)(target|rel)="', x) for x in ls if "stylesheet" not in x):
            if any("AttrList" in fn.ty(i + 1) for i in range(fn.argc)):
                roots.append(fn)
        if any(re.match(r"\s*<a[\s>]", x) or x == "a" for x in ls):
            calls = [(t[1][2] or t[1][1], [g.sym_op(o) for o in t[2]]) for g in body for _, t in g.calls() if t[1][0] == "fn"]
            link = any(c.split("::")[-1] == "named" and ("k", "link") in a for c, a in calls)
            if link or fn.path.split("::")[-1] == "enter_link_macro":
                users.append(fn)
    if not roots:
        raise MissingAnchor("functions writing target/rel attributes")
    # wrappers that only add to an emitter
    grew = True
    while grew:
        grew = False
        em = {f.path for f in roots}
        for fn in P.fns.values():
            if fn.path in em or fn in users or not in_backend(fn) or fn.kind == "Closure" or \
                    not any("AttrList" in fn.ty(i + 1) for i in range(fn.argc)):
                continue
            if any(t[1][0] == "fn" and any(c in em for c in P.callees(t[1])) for _, t in fn.calls()):
                roots.append(fn)
                grew = True
    emitters = {f.path for f in roots}
    helpers = set(emitters)
    paths = 0
    for f in sorted(roots, key=lambda f: f.path):
        try:
            res = emit_paths(P, f)
        except Budget as e:
            R.assumption("left undecided: %s" % e)
            continue
        sh = [("arg", f.lname(i + 1)) for i in range(f.argc) if f.ty(i + 1) == "bool" and
              re.search("blank|window|new_tab", f.lname(i + 1) or "")]
        for parts, facts in sorted(res, key=str):
            paths += 1
            p = judge(parts, facts, sh[0] if sh else None)
            if p and p.endswith("cannot be followed"):
                R.assumption("left undecided: %s in %s" % (p, f.short))
            elif p:
                R.bad("%s:%s" % (f.short, p), "%s: %s; path: %s; pushes %s" % (
                    where(f, f.line), p, describe(facts), "".join(x if k == "l" else "{%s}" % x for k, x in parts)))
            else:
                R.ok("%s on [%s]" % (f.short, describe(facts)))
    n = 0
    for f in sorted(users, key=lambda f: f.path):
        sp = Use(P, helpers, emitters)
        ex = Explorer(sp, P)
        try:
            res = ex.run(f, tuple(("arg", i + 1, f.lname(i + 1) or "_%d" % (i + 1)) for i in range(f.argc)), ((None, False), frozenset()))
        except Budget as e:
            R.assumption("left undecided: %s" % e)
            continue
        n += sp.n
        for g, line, facts in sp.errs:
            R.bad("%s:unconstrained" % f.short, "%s: a link's <a> tag is completed without the author's window and nofollow "
                  "constraints; path: %s" % (where(g, line), describe(facts)))
        R.ok("%s: every opened link tag is handed to %s" % (f.short, ", ".join(sorted(x.short for x in roots))))
    R.count("emitters of target/rel", len(roots))
    R.count("emitter paths", paths)
    R.count("functions opening author links", len(users))
    R.count("link openings on paths", n)
    R.floor("emitters of target/rel", 1)
    R.floor("emitter paths", 2)
    R.floor("functions opening author links", 1)
    R.floor("link openings on paths", 1)
    R.rule("each path of an emitter writes well-formed attributes: target iff requested, noopener iff _blank or requested, nofollow iff requested")
    R.rule("each path that opens an <a> for an author link passes its attribute list to an emitter before the tag is completed")


def describe(facts):
    out = []
    for k, v in sorted(facts, key=str):
        if k[0] in ("window?", "isvar"):
            continue
        n = {"window": "window", "opt": "option " + str(k[1]) if len(k) > 1 else "", "blank": "window==_blank"}.get(k[0])
        if n is None:
            n = fmt(k[1]) if k[0] == "d" else k[1] if k[0] == "arg" and len(k) == 2 else fmt(k)
        out.append("%s=%s" % (n, "/".join(sorted(v)) if isinstance(v, frozenset) else v))
    return ", ".join(out)
