"""Small integers never overflow.

Interval analysis of every function of the workspace: each addition, subtraction,
multiplication or negation on an integer of at most 16 bits, and each conversion to an 8-bit
integer, is proved to stay in range from the tests that guard it - or uses an operation that
cannot wrap (saturating, checked, try_from)."""
import re
from common import where
from mir import fmt, strip_generics
from interval import Intervals, RANGE, arith, fits

NARROW = ("u8", "i8", "u16", "i16")
OPS = ("Add", "Sub", "Mul")
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16}
TRAIT = re.compile(r"(^|::)(Add|Sub|Mul|Neg|AddAssign|SubAssign|MulAssign)(<.*>)?::(add|sub|mul|neg|add_assign|sub_assign|mul_assign)$")


def bare(t):
    return re.sub(r"&(mut )?('\w+ )?", "", t or "").strip()


def run(P, R, tier):
    nops = ncast = nsafe = nfn = 0
    for fn in sorted(P.fns.values(), key=lambda f: f.path):
        if fn.promoted or fn.crate in ("asciidork_tck", "test_utils"):
            continue
        if not interesting(fn):
            continue
        nfn += 1
        A = Intervals(P, fn)
        for bi, si, pl, rv, ln, st in A.sites():
            if si >= 0:
                if rv[0] == "bin":
                    op = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
                    t = optype(fn, pl, rv)
                    if op in OPS and t in NARROW:
                        nops += 1
                        a, b = A.ev(st, rv[2]), A.ev(st, rv[3])
                        r = arith(op, clampto(a, t), clampto(b, t))
                        if op == "Sub":
                            r = max(r[0], A.sub(st, rv[2], rv[3])[0]), r[1]
                        verdict(R, fn, ln, "%s %s %s" % (show(fn, rv[2]), {"Add": "+", "Sub": "-", "Mul": "*"}[op], show(fn, rv[3])),
                                r, t, "leaves the range of %s")
                    elif op in ("Shl", "Shr") and t in NARROW:
                        b = A.ev(st, rv[3])
                        nops += 1
                        verdict(R, fn, ln, "%s shifted by %s" % (show(fn, rv[2]), show(fn, rv[3])),
                                (b[0], b[1] + 256 - BITS[t]) if b[1] >= BITS[t] or b[0] < 0 else (0, 0), "u8", "shifts by more bits than %s has")
                elif rv[0] == "un" and rv[1] == "Neg" and len(pl) == 1 and fn.ty(pl[0]) in NARROW:
                    nops += 1
                    a = A.ev(st, rv[2])
                    verdict(R, fn, ln, "-" + show(fn, rv[2]), (-a[1], -a[0]), fn.ty(pl[0]), "leaves the range of %s")
                elif rv[0] == "cast" and rv[4] == "int" and fn.types[rv[2]] in ("u8", "i8"):
                    s = A.tyop(rv[1])
                    a = A.ev(st, rv[1])
                    if s == "bool" or s in RANGE and fits(RANGE[s], fn.types[rv[2]]):
                        continue
                    if s is not None and s not in RANGE:
                        continue        # a fieldless enum: its discriminants are the compiler's business
                    ncast += 1
                    verdict(R, fn, ln, "%s as %s" % (show(fn, rv[1]), fn.types[rv[2]]), a, fn.types[rv[2]], "drops bits: not every value fits %s")
            else:
                t = fn.blocks[bi]["t"]
                if t[0] != "call" or t[1][0] != "fn":
                    continue
                f = t[1]
                names = [strip_generics(x) for x in (f[1], f[2]) if x]
                aty = [bare(fn.ty(x[1][0])) if x[0] in ("p", "m") and len(x[1]) == 1 else bare(A.tyop(x)) for x in t[2]]
                rt = bare(fn.ty(t[3][0])) if len(t[3]) == 1 else ""
                last = names[0].split("::")[-1]
                if any(TRAIT.search(n) for n in names) and aty and aty[0] in NARROW:
                    nops += 1
                    verdict(R, fn, t[5], "%s of %s" % (last, ", ".join(show(fn, x) for x in t[2])), (-1000, 100000), aty[0], "leaves the range of %s")
                elif last in ("sum", "product") and rt in NARROW:
                    nops += 1
                    verdict(R, fn, t[5], "%s()" % last, (-1000, 100000), rt, "leaves the range of %s")
                elif re.match(r"(wrapping|overflowing|unchecked)_(add|sub|mul|neg|shl|shr|pow|add_signed)$", last) and aty and aty[0] in NARROW:
                    nops += 1
                    verdict(R, fn, t[5], "%s on %s" % (last, ", ".join(show(fn, x) for x in t[2])), (-1000, 100000), aty[0], "wraps around in %s")
                elif last in ("pow", "abs") and aty and aty[0] in NARROW and rt == aty[0]:
                    nops += 1
                    verdict(R, fn, t[5], "%s on %s" % (last, show(fn, t[2][0])), (-1000, 100000), aty[0], "leaves the range of %s")
                elif re.match(r"(saturating|checked)_", last) and aty and aty[0] in NARROW:
                    nsafe += 1
                    R.ok("%s: %s on %s cannot wrap" % (where(fn, t[5]), last, aty[0]))
                elif last in ("try_from", "try_into") and any(w in (fn.ty(t[3][0]) if len(t[3]) == 1 else "") for w in ("<u8", "<i8")):
                    nsafe += 1
                    R.ok("%s: checked conversion" % where(fn, t[5]))
    R.count("functions with small-integer operations", nfn)
    R.count("operations decided by intervals", nops)
    R.count("8-bit conversions decided by intervals", ncast)
    R.count("operations that cannot wrap", nsafe)
    R.floor("functions with small-integer operations", 3)
    R.rule("every + - * or negation on a u8, i8, u16 or i16 has a result inside the type for all values its guards admit")
    R.rule("every `as u8` / `as i8` has an operand inside the type for all values its guards admit")
    R.assumption("a function that returns a reference does not change an integer read before it (accessors)")


def clampto(iv, t):
    return max(iv[0], RANGE[t][0]), min(iv[1], RANGE[t][1])


def optype(fn, pl, rv):
    t = fn.ty(pl[0]) if len(pl) == 1 else None
    if t and t.startswith("("):
        t = t[1:].split(",")[0].strip()
    if t in RANGE:
        return t
    for o in rv[2:4]:
        if o[0] == "k":
            return fn.types[o[1]]
        if len(o[1]) == 1 and fn.ty(o[1][0]) in RANGE:
            return fn.ty(o[1][0])
    return None


def interesting(fn):
    return any(t in NARROW or "u8" in t or "i8" in t or "u16" in t or "i16" in t for t in (fn.types[l[0]] for l in fn.locals))


def show(fn, o):
    return fmt(fn.sym_op(o))[:80]


def verdict(R, fn, ln, what, iv, t, msg):
    if fits(iv, t):
        R.ok("%s: %s stays in [%d, %d]" % (where(fn, ln), what, iv[0], iv[1]))
    else:
        R.bad("%s:%s" % (fn.short, what), "%s: in %s, `%s` %s for some values its guards admit" % (
            where(fn, ln), fn.short, what, msg % t))
