"""Every block the parser can build has a rendering.

Finite-domain evaluation of the parser's MIR enumerates, for every place where a block of the
tree is built, the combinations of block kind and content it can have there (path-sensitive,
through block styles, masquerading and helpers); the evaluator is then evaluated on each
combination: no path may reach one of its own panics."""
import re
from common import where
from enumsets import Ev, Limit, LAST
from mir import MissingAnchor, strip_generics

ENUMS = {"BlockContext", "BlockContent", "EmptyMetadata", "ListVariant", "DelimiterKind", "AdmonitionKind"}
PANIC = re.compile(r"(^|::)(panic\w*|todo_default_msg|unreachable\w*|unwrap_failed|assert_failed|begin_panic\w*|expect_failed)$")


RENDER = ("asciidork_eval", "asciidork_dr_html_backend", "asciidork_backend", "asciidork_backend_html5s")


def base(ty):
    return LAST(ty.replace("&mut ", "").replace("&", "").strip())


class Build:
    """what the parser can build"""

    def __init__(self, P, crate):
        self.P, self.sites, self.bind, self.left = P, {}, {}, []
        self.ev = Ev(P, ENUMS, on_agg=self.agg, on_call=self.call)
        scope = [f for f in P.fns.values() if f.crate == crate and not f.promoted and not re.search(r"::tests?(::|$)|::test_", f.path)]
        self.param = {f.path: [i for i in range(1, f.argc + 1) if base(f.ty(i)) in ("BlockContext", "BlockContent")]
                      for f in scope if f.kind != "Closure"}
        makes = [f for f in scope if any(rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("::Block")
                                         for b in f.blocks for pl, rv, ln in b["s"])]
        self.helpers = {f.path for f in makes if self.param.get(f.path)}
        self.cg, rev = P.callgraph(), P.rev()
        roots = {f.path for f in makes} - self.helpers
        for h in self.helpers:
            roots |= {q for q in rev.get(h, ()) if q in P.fns and q not in self.helpers}
        self.n_fns = len(roots | self.helpers)
        for p in sorted(roots):
            self.go(P.fns[p], [("sym", ("arg", p, i)) for i in range(1, P.fns[p].argc + 1)], {})
        done = set()
        while True:
            new = [(h, b) for h, bs in self.bind.items() for b in bs if (h, b) not in done]
            if not new:
                break
            for h, b in sorted(new, key=str):
                done.add((h, b))
                fn = P.fns[h]
                facts, args = {}, []
                vals = dict(b)
                for i in range(1, fn.argc + 1):
                    a = ("sym", ("arg", h, i))
                    if i in vals:
                        v, vs = vals[i]
                        if v is not None:
                            a = v
                        else:
                            facts[a[1]] = vs
                    args.append(a)
                self.go(fn, args, facts)

    def go(self, fn, args, facts):
        try:
            self.ev.run(fn, args, facts)
        except Limit:
            self.left.append(fn.short)

    def call(self, fn, t, nm, args, facts):
        if t[1][0] != "fn":
            return
        for c in self.P.callees(t[1]):
            if c in self.helpers:
                b = []
                for i in self.param[c]:
                    a = args[i - 1]
                    adt = base(self.P.fns[c].ty(i))
                    b.append((i, (a, None) if a[0] == "agg" else (None, self.ev.variants(a, adt, facts))))
                self.bind.setdefault(c, set()).add(tuple(b))

    def agg(self, fn, ln, v, facts):
        if v[1] != "Block":
            return
        d = dict(v[3])
        if "context" not in d or "content" not in d:
            return
        cs = self.ev.variants(d["context"], "BlockContext", facts)
        k = d["content"]
        for kv in self.ev.variants(k, "BlockContent", facts):
            subs = [None]
            if k[0] == "agg" and k[3]:
                s = k[3][0][1]
                if s[0] == "agg" and s[1] == "EmptyMetadata":
                    subs = [s[2]]
            if kv == "Empty" and subs == [None]:
                subs = sorted(self.ev.var["EmptyMetadata"].values())
            for c in cs:
                for s in subs:
                    self.sites.setdefault((c, kv, s), set()).add((fn, ln))


def entries(P, crate):
    """functions of the evaluator that are handed arbitrary blocks"""
    out = set()
    for f in P.fns.values():
        if f.crate != crate or f.promoted:
            continue
        for b in f.blocks:
            t = b["t"]
            if t[0] != "call" or t[1][0] != "fn":
                continue
            for c in P.callees(t[1]):
                g = P.fns[c]
                if g.crate != crate or g.kind == "Closure":
                    continue
                for i in range(g.argc):
                    if base(g.ty(i + 1)) != "Block" or i >= len(t[2]) or not reads(g, i + 1):
                        continue
                    e = f.sym_op(t[2][i])
                    while e[0] == "ref":
                        e = e[1]
                    own = e[0] == "arg" and f.kind != "Closure"
                    if not own:
                        out.add((c, i + 1))
    return out


def reads(g, l):
    """does g look at the content of the block it is given?"""
    return any(rv[0] in ("use", "ref", "discr") and "'content', 'asciidork_ast::block::Block'" in str(rv) for b in g.blocks for pl, rv, ln in b["s"])


def run(P, R, tier):
    B = Build(P, "asciidork_parser")
    if not B.sites:
        raise MissingAnchor("places in the parser where a Block is built")
    E = entries(P, "asciidork_eval")
    if not E:
        raise MissingAnchor("the evaluator's function that renders a Block")
    for s in B.left:
        R.bad("limit:" + s, "too many paths to enumerate the blocks %s builds" % s)
    n = 0
    for (c, kv, sub), at in sorted(B.sites.items(), key=str):
        sfn, sln = sorted(at, key=lambda x: (x[0].path, x[1]))[0]
        what = "%s with %s content" % (c, kv if sub is None else "%s(%s)" % (kv, sub))
        for p, i in sorted(E):
            fn = P.fns[p]
            hit = []

            def on_call(f2, t, nm, args, facts):
                if f2.crate in RENDER and PANIC.search(nm):
                    hit.append((f2, t[5]))

            def desc(g):
                if g.kind != "Closure" and g.argc == 1 and base(g.ty(1)) == "BlockContext" and "Option<" in g.ty(0)[:30]:
                    return True
                if g.crate in RENDER and g.kind != "Closure":
                    return any(base(g.ty(k + 1)) == "Block" for k in range(g.argc)) or None
                return None
            ev = Ev(P, ENUMS, on_call=on_call, descend=desc)
            pay = () if sub is None else (("0", ("agg", "EmptyMetadata", sub, ())),)
            blk = ("agg", "Block", None, (("context", ("agg", "BlockContext", c, ())), ("content", ("agg", "BlockContent", kv, pay))))
            args = [("sym", ("arg", p, k)) if k != i else blk for k in range(1, fn.argc + 1)]
            try:
                ev.run(fn, args, {})
            except Limit:
                R.bad("limit:%s" % fn.short, "too many paths in %s" % fn.short)
                continue
            n += 1
            if hit:
                R.bad("%s:%s:%s" % (c, kv, sub), "%s: %s can build a %s, for which %s panics at line %d instead of rendering it" % (
                    where(sfn, sln), sfn.short, what, hit[0][0].short, hit[0][1]))
            else:
                R.ok("%s (built in %s) is rendered by %s" % (what, ", ".join(sorted({f.short for f, _ in at})), fn.short))
    R.count("combinations of block kind and content the parser can build", len(B.sites))
    R.count("building functions", B.n_fns)
    R.count("path states in the parser", B.ev.n)
    R.floor("combinations of block kind and content the parser can build", 20)
    R.rule("for every kind and content a block can be built with, no path of the evaluator's block function reaches one of its panics")
    R.assumption("blocks are built by the parser only; a block's kind and content are not changed after it is built")
