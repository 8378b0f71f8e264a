"""Shared vocabulary for the host-policy rules (safe mode, job attributes)."""
from mir import short
from common import expr_any

SAFE_ORDER = ["Unsafe", "Safe", "Server", "Secure"]


def safe_order(P):
    v = P.variants("SafeMode")
    return [v[k] for k in sorted(v)]


def safe_mode_set(P, e):
    """(subject, set of modes for which the boolean expression is true) or None"""
    if e[0] == "isvar" and len(e) == 3:
        if all(x in SAFE_ORDER for x in e[2]):
            return e[1], set(e[2])
    if e[0] == "call" and len(e[2]) == 2:
        a, b = e[2]
        op = e[3].split("::")[-1]
        flip = False
        if a[0] == "variant" and a[1] == "SafeMode":
            a, b, flip = b, a, True
        if b[0] == "variant" and b[1] == "SafeMode":
            o = safe_order(P)
            if flip:
                op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
            i = o.index(b[2])
            s = {"eq": {b[2]}, "ne": set(o) - {b[2]}, "lt": set(o[:i]), "le": set(o[:i + 1]),
                 "gt": set(o[i + 1:]), "ge": set(o[i:])}.get(op)
            if s is not None:
                return a, s
    return None


def is_mode_subject(e):
    return expr_any(e, lambda x: x[0] == "field" and x[2] == "safe_mode") or e[0] in ("arg", "var")


def mode_fact(P, e, kind):
    """predicate key ("mode", frozenset) for a test of the safe mode"""
    if kind == "bool":
        r = safe_mode_set(P, e)
        if r and is_mode_subject(r[0]):
            return ("mode", frozenset(r[1]))
    if kind == "discr" and e[2] == "SafeMode" and is_mode_subject(e[1]):
        return ("modeset",)
    return None


def possible_modes(facts):
    s = set(SAFE_ORDER)
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == "mode":
            s &= set(k[1]) if v else set(SAFE_ORDER) - set(k[1])
        elif k == ("modeset",):
            s &= set(v)
    return s


def attr_true(e, name):
    return e[0] == "call" and e[3] == "ReadAttr::is_true" and len(e[2]) == 2 and e[2][1] == ("k", name)


def resolver_sinks(P, R):
    sinks = set()
    for fn in P.bodies():
        for bi, t in fn.calls():
            if t[1][0] == "fn" and short(t[1][1]) == "IncludeResolver::resolve":
                if "as IncludeResolver>" not in fn.short:
                    sinks.add(fn.path)
                R.count("resolver call sites", 1)
    return sinks


def mode_switch(fn, t):
    """a `match` on the safe mode"""
    if t[0] != "switch":
        return False
    e = fn.sym_op(t[1])
    return e[0] == "discr" and e[2].split("::")[-1] == "SafeMode" and is_mode_subject(e[1])


def mode_testers(P):
    """functions that test the safe mode (by comparison or `match`)"""
    from engine import norm_bool
    out = set()
    for fn in P.bodies():
        if any(mode_switch(fn, b["t"]) for b in fn.blocks) or any(
                t[1][0] == "fn" and safe_mode_set(P, norm_bool(fn.sym_call(t))) for bi, t in fn.calls()):
            out.add(fn.path)
    return out
