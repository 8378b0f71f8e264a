"""No document makes two borrows of a shared cell collide.

RefCell borrow discipline over MIR: while a `Ref`/`RefMut` guard is live (from
the borrow call to the drop of whatever local holds it), no call may, directly or
through anything it can reach, take a conflicting borrow of the same cell."""
from common import where
from mir import short, fmt, MissingAnchor, strip_generics

BORROW = {"RefCell::borrow": "r", "RefCell::borrow_mut": "w", "RefCell::replace": "W", "RefCell::take": "W",
          "RefCell::swap": "W", "RefCell::replace_with": "W"}


def cell_of(fn, t):
    """(content type, field name or None)"""
    o = t[2][0]
    ty = None
    g = t[1][4] if len(t[1]) > 4 else None
    if g:
        ty = str(g)
    e = fn.sym_op(o)
    while e[0] in ("ref", "as") or e[0] == "call" and e[1].split("::")[-1] in ("deref", "as_ref", "clone", "borrow") and e[2]:
        e = e[1] if e[0] != "call" else e[2][0]
    name = e[2] if e[0] == "field" else None
    if name is not None and name.isdigit():
        name = None
    return (norm(ty or "?"), name)


def norm(t):
    import re
    return re.sub(r"'[a-z_0-9]+", "'_", t)


def clash(a, ka, b, kb):
    if ka == "r" and kb == "r":
        return False
    if a[0] != b[0]:
        return False
    return a[1] is None or b[1] is None or a[1] == b[1]


def run(P, R, tier):
    direct = {}
    calls = 0
    for fn in P.fns.values():
        if fn.crate in ("test_utils", "tck"):
            continue
        for bi, b in enumerate(fn.blocks):
            t = b["t"]
            if t[0] == "call" and t[1][0] == "fn":
                k = BORROW.get(short(t[1][2] or t[1][1]))
                if k:
                    c = cell_of(fn, t)
                    direct.setdefault(fn.path, set()).add((c, k if k != "W" else "w", t[5]))
                    calls += 1
    if calls < 15:
        raise MissingAnchor("RefCell borrows (%d)" % calls)
    R.count("borrow sites", calls)
    R.count("cells", len({c for s in direct.values() for c, _, _ in s}))
    # transitive effects
    cg = P.callgraph()
    eff = {p: {(c, k) for c, k, _ in s} for p, s in direct.items()}
    rev = P.rev()
    work = list(eff)
    while work:
        p = work.pop()
        for q in rev.get(p, ()):
            e = eff.setdefault(q, set())
            n = eff[p] - e
            if n:
                e |= n
                work.append(q)
    nguard = 0
    for path in direct:
        fn = P.fns[path]
        nguard += flow(P, R, fn, eff)
    R.count("guards followed", nguard)
    R.floor("guards followed", 5)
    R.assumption("guards stored in struct fields or returned from functions: none exist (checked)")
    # guards must not escape into fields / return values
    for fn in P.fns.values():
        ty = fn.ty(0)
        if fn.crate in ("test_utils", "tck") or fn.kind == "Closure" and "cell::Ref" not in ty:
            continue
        if "cell::Ref<" in ty or "cell::RefMut<" in ty:
            R.bad("escape:" + fn.short, "%s: returns a borrow guard; its lifetime is not followed" % where(fn, fn.line))


def is_guard_ty(t):
    return "cell::Ref<" in t or "cell::RefMut<" in t


def flow(P, R, fn, eff):
    """forward may-analysis: local -> (cell, kind, line)"""
    n = len(fn.blocks)
    instate = {0: frozenset()}
    work = [0]
    found = 0
    reported = set()
    while work:
        bi = work.pop()
        st = dict((l, set()) for l, _ in instate[bi])
        for l, g in instate[bi]:
            st[l].add(g)
        b = fn.blocks[bi]
        for pl, rv, ln in b["s"]:
            if rv[0] == "dead":
                st.pop(pl[0], None)
                continue
            ops = []
            if rv[0] in ("use", "cast"):
                ops = [rv[1]]
            elif rv[0] == "agg":
                ops = rv[2]
            for o in ops:
                if o[0] == "m" and o[1][0] in st and (len(o[1]) == 1 or is_guard_ty(fn.ty(o[1][0]))):
                    g = st.pop(o[1][0]) if len(o[1]) == 1 else st[o[1][0]]
                    st.setdefault(pl[0], set()).update(g)
        t = b["t"]
        outs = []
        if t[0] == "call":
            f = t[1]
            name = short(f[2] or f[1]) if f[0] == "fn" else None
            # effects of this call while guards are live
            effs = []
            if name in BORROW:
                k = BORROW[name]
                effs = [(cell_of(fn, t), "w" if k == "W" else k, name)]
            elif f[0] == "fn":
                for c in P.callees(f):
                    effs += [(x, k, short(c)) for x, k in eff.get(c, ())]
            for o in t[2]:
                cp = o[1] if o[0] == "closure" else None
                if o[0] in ("p", "m") and len(o[1]) == 1:
                    ds = fn.defs().get(o[1][0], ())
                    for d in ds:
                        if d[2] == "rv" and d[3][0] == "agg" and d[3][1][0] == "closure":
                            cp = d[3][1][1]
                if cp:
                    effs += [(x, k, short(cp)) for x, k in eff.get(cp, ())]
            for l, gs in st.items():
                for c, k, line in gs:
                    for c2, k2, via in effs:
                        if clash(c, k, c2, k2) and (line, via) not in reported:
                            reported.add((line, via))
                            R.bad("%s:%s:%s" % (fn.short, c[1] or c[0][:40], via),
                                  "%s: `%s` is %s while the borrow taken at line %d is still live, and %s the same cell" % (
                                      where(fn, t[5]), via, "called" if name != via else "reached", line,
                                      "writes" if k2 == "w" else "reads"))
            moved = set()
            for o in t[2]:
                if o[0] == "m" and len(o[1]) == 1 and o[1][0] in st:
                    moved |= st.pop(o[1][0])
            if t[4] is not None:
                d = t[3][0]
                st.pop(d, None) if len(t[3]) == 1 else None
                if name in ("RefCell::borrow", "RefCell::borrow_mut"):
                    st[d] = {(cell_of(fn, t), BORROW[name], t[5])}
                    found += 1 if bi not in reported else 0
                    reported.add(bi)
                elif moved and is_guard_ty(fn.ty(d)):
                    st[d] = moved
                outs = [t[4]]
        elif t[0] == "drop":
            if len(t[1]) == 1:
                st.pop(t[1][0], None)
            outs = [t[2]]
        else:
            outs = list(fn.succs(bi))
        new = frozenset((l, g) for l, gs in st.items() for g in gs)
        for o in outs:
            cur = instate.get(o)
            nx = new if cur is None else cur | new
            if nx != cur:
                instate[o] = nx
                work.append(o)
    if not any(isinstance(r, tuple) for r in reported):
        R.ok("%s: no conflicting borrow while a guard is live (%d guard(s))" % (fn.short, found))
    return found
