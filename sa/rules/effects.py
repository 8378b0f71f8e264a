"""Inventory of external functions used by the library crates (calls and function references)."""
import re
from mir import strip_generics, rv_ops, short

CLI = "asciidork"


def ops(fn):
    for b in fn.blocks:
        for pl, rv, ln in b["s"]:
            for o in rv_ops(rv):
                if o[0] == "fn":
                    yield o, ln
        t = b["t"]
        if t[0] == "call":
            for o in [t[1]] + t[2]:
                if o[0] == "fn":
                    yield o, t[5]


def clean(p):
    p = strip_generics(p)
    while p.startswith(("<", "&", "mut ")):
        p = p[4:] if p.startswith("mut ") else p[1:]
    return p


def externals(P, crates=None, skip=(CLI,)):
    """yields (fn, external path, line) for every use of a function defined outside the workspace"""
    for fn in P.fns.values():
        if fn.crate in skip or (crates and fn.crate not in crates):
            continue
        for o, ln in ops(fn):
            if P.callees(o):
                continue
            for p in {clean(o[1]), clean(o[2] or o[1])}:
                yield fn, p, ln
