"""All paths of one small function, interpreted by absint with every decided fact kept.

Used where a rule needs the exact text a function emits on each path."""
import absint
from absint import Interp, St, Cap, EMPTY, Viol, trace_list
from engine import Budget


class All:
    def __contains__(self, k):
        return True

    def __or__(self, o):
        return self


def paths(P, fn, adt, buf, limit=60000):
    """-> [(facts dict, buffer value, returned value, state)] for fn called on an object of type `adt`
    whose output buffer is the field `buf` (empty on entry)"""
    cfg = {"html": buf, "alt": None, "alt_empty": set(), "types": {}, "fields": []}
    I = Interp(P, adt, [], cfg)
    I.dom0 = {}
    I.keep = All()
    I.cap = I.MAX = limit
    I.tmax = 200
    me = ("a", "self")
    obj = ("upd", me, ((buf, EMPTY),)) if buf else ("upd", me, ())
    st = St({("B",): obj}, {})
    args = []
    for i in range(1, fn.argc + 1):
        ty = fn.ty(i)
        args.append(("ref", ("B",), ()) if ty.startswith("&mut") and i == 1 else ("a", fn.lname(i) or "_%d" % i))
    try:
        res = I.run(fn, args, st, (), 0, ())
    except Cap:
        raise Budget("too many paths in " + fn.short)
    out = []
    for rv, s in res:
        b = I.getf(s, s.mem[("B",)], buf) if buf else None
        out.append((dict(s.facts), b, rv, s))
    return out, I
