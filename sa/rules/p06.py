"""Conversion is deterministic: a function of the source, the settings and the supplied timestamps.

Sources of run-to-run variation in the library crates are enumerated and each
use is decided: randomly ordered iteration (std hash maps/sets) may only feed
order-insensitive consumers or be sorted before anything else sees it; clocks,
time zone, environment, random numbers, thread identity and addresses are not
read; no mutable process-wide state carries over between documents."""
import re
from common import where, expr_any
from engine import norm_bool
from mir import short, rv_ops
from rules.effects import externals, clean

HASHIT = re.compile(r"collections::hash::(map|set)::(Iter|IntoIter|Keys|Values|Drain|IntoKeys|IntoValues|IterMut|"
                    r"ValuesMut|Union|Difference|Intersection|SymmetricDifference|ExtractIf)\b")
HASHC = re.compile(r"^(&|&mut |&'\S+ )*std::collections::hash::(map|set)::Hash(Map|Set)<")
ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "flat_map", "flatten", "chain", "by_ref", "inspect", "into_iter",
         "iter", "clone", "fuse"}
TERM = {"any", "all", "count", "sum", "product", "min", "max", "len", "is_empty", "size_hint"}
UNORDERED = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<")
NONDET = (("std::time::", "the clock"), ("std::env::var", "an environment variable"), ("std::env::args", "the process arguments"),
          ("std::env::current_dir", "the current directory"), ("std::env::temp_dir", "the environment"),
          ("std::process::id", "the process id"), ("std::thread::", "threads"), ("rand", "random numbers"),
          ("getrandom", "random numbers"), ("std::hash::random::RandomState", "a randomly seeded hasher"),
          ("std::collections::hash_map::RandomState", "a randomly seeded hasher"), ("fastrand", "random numbers"),
          ("dateparser::", "the clock and the local time zone (dateparser fills in both)"), ("chrono::offset::local", "the local time zone"),
          ("chrono::Local", "the local time zone"), ("std::sync::mpsc", "threads"), ("uuid::", "random numbers"))
CLOCKS = re.compile(r"^(jiff|chrono|time)::.*(::now|::today|::system|::try_system|local)")
STATE = re.compile(r"(\bCell<|RefCell<|UnsafeCell<|Mutex<|RwLock<|Atomic[A-Z]|OnceCell<|OnceLock<|\*mut )")
STATE_OK = re.compile(r"^(&)*(lazy_static::lazy::Lazy<|std::sync::lazy_lock::LazyLock<|once_cell::sync::Lazy<|"
                      r"tracing_core::)")


def opl(o):
    return o[1][0] if o[0] in ("p", "m") else None


def uses_of(fn, l):
    """(block, statement index, kind, payload) of every read of local l"""
    for bi, b in enumerate(fn.blocks):
        for si, (pl, rv, ln) in enumerate(b["s"]):
            if rv[0] == "dead":
                continue
            if rv[0] in ("ref", "raw", "discr") and rv[1][0] == l:
                yield bi, si, "rv", (pl, rv, ln)
            elif any(opl(o) == l for o in rv_ops(rv)):
                yield bi, si, "rv", (pl, rv, ln)
        t = b["t"]
        if t[0] == "call" and any(opl(o) == l for o in t[2]):
            yield bi, 1 << 20, "call", t
        elif t[0] == "drop" and t[1][0] == l:
            yield bi, 1 << 20, "drop", t


def mutating_closure(P, fn, t):
    for o in t[2]:
        l = opl(o)
        ty = fn.ty(l) if l is not None and len(o[1]) == 1 else ""
        if "{closure@" in ty or o[0] == "closure":
            for bi, b in enumerate(fn.blocks):
                for pl, rv, ln in b["s"]:
                    if pl == [l] and rv[0] == "agg" and rv[1][0] == "closure":
                        c = P.fns.get(rv[1][1])
                        for x in rv[2]:
                            k = opl(x)
                            if k is not None and fn.ty(k).startswith("&mut"):
                                return True
    return False


def sorted_first(P, fn, l, dom):
    """the first use of the collected sequence sorts it, before anything else can see its order"""
    aliases, work = {l}, [l]
    sorts, others = [], []
    while work:
        x = work.pop()
        for bi, si, k, p in uses_of(fn, x):
            if k == "drop":
                continue
            if k == "rv":
                d = p[0]
                if len(d) == 1 and d[0] not in aliases:
                    aliases.add(d[0])
                    work.append(d[0])
                continue
            t = p
            n = short(t[1][1]).split("::")[-1] if t[1][0] == "fn" else "?"
            if n.startswith("sort"):
                sorts.append(bi)
            elif n in ("deref_mut", "as_mut_slice", "deref", "as_mut", "borrow_mut", "len", "is_empty"):
                d = t[3]
                if n not in ("len", "is_empty") and len(d) == 1 and d[0] not in aliases:
                    aliases.add(d[0])
                    work.append(d[0])
            else:
                others.append(bi)
    return bool(sorts) and all(any(s != o and s in dom(o) for s in sorts) for o in others)


def dominators(fn):
    n = len(fn.blocks)
    preds = fn.preds()
    full = set(range(n))
    D = [full.copy() for _ in range(n)]
    D[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in range(1, n):
            ps = [p for p in preds.get(i, ())]
            if not ps:
                continue
            new = set.intersection(*[D[p] for p in ps]) | {i}
            if new != D[i]:
                D[i] = new
                ch = True
    return D


PURE_IN_LOOP = {"next", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "deref", "as_ref", "as_str", "borrow", "contains", "get",
                "is_empty", "len", "starts_with", "ends_with", "is_some", "is_none", "contains_key", "clone", "to_string",
                "unwrap", "index", "into_iter", "as_bytes"}


def loop_ok(P, fn, bi):
    """body of the loop around the `next` call at block bi has order-insensitive effects only"""
    # natural loop: blocks that reach bi and are reachable from bi
    def reach(start, nxt):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            for s in nxt(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen
    preds = fn.preds()
    body = reach(bi, fn.succs) & reach(bi, lambda b: preds.get(b, ()))
    if bi not in body:
        return "the element picked first depends on the order"
    meta = {}
    for b in body:
        t = fn.blocks[b]["t"]
        if t[0] == "call":
            n = short(t[1][1]).split("::")[-1] if t[1][0] == "fn" else "?"
            if n == "insert" and t[2]:
                l = opl(t[2][0])
                if l is not None and UNORDERED.search(fn.ty(l)):
                    continue
            if n not in PURE_IN_LOOP:
                return "loop body calls %s at line %d" % (short(t[1][1]) if t[1][0] == "fn" else "?", t[5])
    # locals assigned in the loop and read after it
    outside = [b for b in range(len(fn.blocks)) if b not in body and not fn.blocks[b].get("cleanup")]
    for b in body:
        for pl, rv, ln in fn.blocks[b]["s"]:
            if rv[0] == "dead":
                continue
            l = pl[0]
            if any(x == "*" for x in pl[1:]):
                if not commut(fn, pl, rv, body):
                    return "store through a reference in the loop at line %d" % ln
                continue
            read_out = any(u[0] in outside for u in uses_of(fn, l)) or l == 0
            if read_out and not commut(fn, pl, rv, body):
                return "`%s` is overwritten in iteration order at line %d" % (fn.lname(l) or "_%d" % l, ln)
    return None


def commut(fn, pl, rv, body):
    if rv[0] == "use" and rv[1][0] == "k":
        return True
    src = rv
    # x = move (_t.0) where _t = AddWithOverflow(x, e)
    for _ in range(4):
        if src[0] == "use" and src[1][0] in ("p", "m"):
            q = src[1][1]
            ds = [d for d in fn.defs().get(q[0], ()) if d[2] == "rv"]
            if len(ds) != 1:
                return False
            src = ds[0][3]
        elif src[0] == "bin":
            return src[1].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub", "BitOr", "BitAnd", "BitXor", "Mul") \
                and (src[2][0] in ("p", "m") and src[2][1] == pl or src[3][0] in ("p", "m") and src[3][1] == pl)
        elif src[0] in ("agg", "ref", "discr"):
            return False
        else:
            return False
    return False


def run(P, R, tier):
    R.rule("unordered iteration: every use of a std hash map/set iterator ends in an order-insensitive consumer, a keyed "
           "container, a commutative loop, or a sort that precedes every other use")
    R.rule("no clock, time zone, environment, randomness, thread identity or address is read by a library crate")
    R.rule("no static with interior mutability other than lazily initialised constants; no thread-local state")
    for fn in P.fns.values():
        if fn.crate == "asciidork" or fn.promoted:
            continue
        dom = None
        for bi, t in fn.calls():
            if t[1][0] != "fn":
                continue
            n = short(t[1][1]).split("::")[-1]
            tys = [fn.ty(opl(o)) if opl(o) is not None and len(o[1]) == 1 else "" for o in t[2]]
            dest = fn.ty(t[3][0]) if len(t[3]) == 1 else ""
            it = [i for i, x in enumerate(tys) if HASHIT.search(x)]
            hc = [i for i, x in enumerate(tys) if HASHC.search(x)]
            key = None
            if it:
                R.count("hash-order consumers", 1)
                if n in ADAPT and HASHIT.search(dest):
                    key = "closure" if mutating_closure(P, fn, t) else None
                    msg = "a closure with captured mutable state runs in hash order"
                elif n in TERM:
                    key = "closure" if mutating_closure(P, fn, t) else None
                    msg = "a closure with captured mutable state runs in hash order"
                elif n in ("collect", "from_iter", "extend") and UNORDERED.search(dest if n != "extend" else tys[0]):
                    pass
                elif n in ("collect", "from_iter") and len(t[3]) == 1:
                    D = dominators(fn) if dom is None else dom
                    dom = D
                    if not sorted_first(P, fn, t[3][0], lambda b: D[b]):
                        key, msg = "collect", "a sequence collected in hash order is used before it is sorted"
                elif n == "next":
                    why = loop_ok(P, fn, bi)
                    if why:
                        key, msg = "loop", "a loop in hash order has an order-dependent effect: " + why
                elif n in ("drop", "fmt", "into_iter"):
                    pass
                elif P.callees(t[1]):
                    pass    # the callee has the same iterator type and is decided there
                else:
                    key, msg = n, "`%s` depends on hash order" % n
                if key:
                    R.bad("hash:%s:%s" % (fn.short, key), "%s at %s" % (msg, where(fn, t[5])))
                else:
                    R.ok("%s at %s does not depend on hash order" % (n, where(fn, t[5])))
            elif hc and n in ("extend", "from_iter", "zip", "chain", "new_debug", "for_each"):
                base = dest if n != "extend" else tys[0]
                if n == "new_debug" and " as Debug>" in fn.short:
                    continue
                if not (n != "new_debug" and UNORDERED.search(base)):
                    R.bad("hash:%s:%s" % (fn.short, n), "`%s` exposes hash order at %s" % (n, where(fn, t[5])))
    R.floor("hash-order consumers", 1)
    seen = {}
    for fn, p, ln in externals(P):
        R.count("external function uses", 1)
        for pre, what in NONDET:
            if p.startswith(pre):
                seen[(fn.short, p)] = (fn, ln, what)
        if CLOCKS.search(p):
            seen[(fn.short, p)] = (fn, ln, "the clock or the local time zone")
        if p.startswith("std::thread::local") or "LocalKey" in p:
            seen[(fn.short, p)] = (fn, ln, "thread-local state")
        if p.endswith("new_pointer") or "::addr" in p and "ptr" in p:
            seen[(fn.short, p)] = (fn, ln, "a memory address")
    for (s, p), (fn, ln, what) in sorted(seen.items()):
        R.bad("clock:%s:%s" % (s, p), "library code reads %s: %s at %s" % (what, p, where(fn, ln)))
    R.floor("external function uses", 3000)
    R.ok("no other clock, environment, randomness or thread read in %d external uses" % R.counts["external function uses"])
    for fn in P.fns.values():
        if fn.crate == "asciidork":
            continue
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if rv[0] == "cast" and rv[4] == "expose":
                    R.bad("addr:" + fn.short, "a memory address is turned into a number at " + where(fn, ln))
        if fn.kind.startswith("Static") and not fn.promoted:
            R.count("statics", 1)
            ty = fn.ty(0)
            ok = "mutability: Not" in fn.kind and (STATE_OK.search(ty) or not STATE.search(ty)) and "thread" not in fn.kind.lower()
            R.check(ok, "static:" + fn.short, "static %s holds no mutable state (%s)" % (fn.short, ty[:60]))
    R.floor("statics", 5)
    R.assumption("sort keys used on hash-ordered sequences identify elements (ties would keep hash order)")
    R.assumption("the standard hash map's behaviour other than iteration order is deterministic")
