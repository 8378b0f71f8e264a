"""Outside unsafe mode the CLI opens no document-named file beyond its containment directory.

Sinks are all file-reading standard-library calls of the CLI crate.  Each one
either opens a path taken from the command line alone, or, on every path to it,
the safe mode is Unsafe or a component-wise `Path::starts_with(base)` test of
the canonicalised opened path succeeded, `base` being the canonicalised base
directory (or the working directory)."""
from common import where, expr_any
from mir import short, fmt
from engine import Explorer, Spec, norm_bool
from rules.policy import mode_fact, possible_modes

READERS = ("std::fs::File::open", "std::fs::read_to_string", "std::fs::read", "std::fs::read_dir",
           "std::fs::OpenOptions::open", "std::fs::read_link", "std::fs::copy", "std::fs::hard_link",
           "std::fs::File::options", "std::fs::File::open_buffered")
CLI = "asciidork"


def is_canon(e):
    return expr_any(e, lambda x: x[0] in ("call", "fn") and "canonicalize" in x[1])


def canon_arg(e):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "call" and x[1].endswith("canonicalize") and x[2]:
                out.append(x[2][0])
            for y in x:
                go(y)
    go(e)
    return out


def base_like(e):
    """a containment directory: resolver base_dir or the process's working directory"""
    return expr_any(e, lambda x: (x[0] == "call" and (x[1].endswith("get_base_dir") or x[1].endswith("current_dir")))
                    or (x[0] == "field" and x[2] == "base_dir"))


def cmdline(e):
    """derived from the parsed arguments only"""
    leaves = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "field" and x[1][0] in ("arg", "var") and x[1][1 if x[1][0] == "var" else 2] == "args":
            leaves.append(True)
            return
        if x[0] in ("arg", "var"):
            leaves.append(False)
            return
        if x[0] == "closure":
            return
        for y in x:
            go(y)
    go(e)
    return bool(leaves) and all(leaves)


def prefix_of(e):
    """(path, base) of a `path.strip_prefix(base)` whose success is the containment test"""
    while isinstance(e, tuple) and e and (e[0] == "ref" or e[0] == "call" and e[1] in ("Result::as_ref", "Result::ok", "Result::map_err")):
        e = e[1] if e[0] == "ref" else e[2][0]
    if isinstance(e, tuple) and e and e[0] == "call" and e[1] == "Path::strip_prefix" and len(e[2]) == 2:
        return e[2]
    return None


# what makes another path out of a path
OTHER = {"parent", "ancestors", "components", "iter", "join", "strip_prefix", "with_file_name", "with_extension", "file_name",
         "file_stem", "root", "prefix", "temp_dir", "home_dir", "split_at", "nth", "trim_end_matches", "rsplit_once", "replace"}


def same_path(e):
    """nothing on the way changed which path this is"""
    return not expr_any(e, lambda x: x[0] == "call" and x[1].split("::")[-1] in OTHER)


def holds(k, v):
    """(path, base) shown by a fact to be component-wise prefix related"""
    if k[0] == "within" and v is True:
        return k[1], k[2]
    if k[0] == "stripped":
        ok = v == frozenset({"Ok"}) if k[2] is None else (set(k[2]) == {"Ok"}) == v and isinstance(v, bool)
        if ok:
            return k[1]
    return None


class S(Spec):
    def __init__(self, P, helpers):
        self.P, self.helpers, self.ev = P, helpers, []

    def track(self, fr, e, kind):
        k = mode_fact(self.P, e, kind)
        if k:
            return k
        if kind == "bool" and e[0] == "call" and e[1] == "Path::starts_with" and len(e[2]) == 2:
            return ("within", e[2][0], e[2][1])
        if kind == "bool" and e[0] == "isvar" and prefix_of(e[1]):
            return ("stripped", prefix_of(e[1]), e[2])
        if kind == "discr" and e[2] == "Result" and prefix_of(e[1]):
            return ("stripped", prefix_of(e[1]), None)
        return None

    def descend(self, path):
        return path in self.helpers

    def call(self, fr, bi, t, names, args, st):
        p = names[2][2] or names[2][1]
        if p in READERS:
            self.ev.append((fr.fn, t[5], p, args[0] if args else None, dict(st[1])))
        return None


def contained(path, facts):
    for k, v in facts.items():
        tb = holds(k, v) if isinstance(k, tuple) else None
        if tb:
            tested, base = tb
            if not base_like(base) or not same_path(base) or not same_path(tested):
                continue
            if not is_canon(tested):
                continue
            if tested == path or path in canon_arg(tested):
                return True
    return False


def run(P, R, tier):
    R.rule("must-pass-through: file read <= safe_mode == Unsafe OR canonicalize(path).starts_with(containment dir), "
           "component-wise, of the same path")
    R.rule("exempt: paths that derive from the command-line arguments only")
    fns = [f for f in P.bodies() if f.crate == CLI]
    readers = set()
    for fn in fns:
        for bi, t in fn.calls():
            if t[1][0] == "fn" and (t[1][2] or t[1][1]) in READERS:
                readers.add(fn.path)
                R.count("file-reading call sites", 1)
            if t[1][0] == "fn" and (t[1][2] or t[1][1]).startswith(("tokio::fs", "std::os::unix::fs", "memmap")):
                R.bad("other-fs:" + fn.short, "unrecognised file API %s at %s" % (t[1][1], where(fn, t[5])))
    R.floor("file-reading call sites", 1)
    # small boolean/Result helpers (containment tests moved into a function)
    helpers = set()
    for fn in fns:
        for bi, t in fn.calls():
            if t[1][0] == "fn" and "starts_with" in t[1][1] or t[1][0] == "fn" and "SafeMode" in str(t[1]):
                if fn.path not in readers:
                    helpers.add(fn.path)
    rev = P.rev()
    for p in list(helpers):
        for c in rev.get(p, ()):
            if c not in readers and P.fns[c].crate == CLI and len(P.fns[c].blocks) < 80 and P.fns[c].name not in ("main", "run"):
                helpers.add(c)
    for p in sorted(readers):
        pending = [(p, None)]
        root = P.fns[p]
        spec = S(P, helpers)
        ex = Explorer(spec, P)
        ex.run(root, [("arg", i + 1, root.lname(i + 1) or "_") for i in range(root.argc)], (0, frozenset()))
        R.count("path states explored", ex.n_states)
        bad = []
        n = 0
        for fn, line, api, path, facts in spec.ev:
            n += 1
            if path is not None and cmdline(path):
                continue
            if "Unsafe" in possible_modes(facts) and len(possible_modes(facts)) == 1:
                continue
            if path is not None and contained(path, facts):
                continue
            bad.append((fn, line, api, path))
        if bad and not_gated_by_callers(P, root, bad, readers, helpers, R):
            fn, line, api, path = bad[0]
            R.bad("cli-read:%s:%s" % (fn.short, short(api)),
                  "%s opens `%s` at %s; a path reaches it outside unsafe mode without the containment test" % (
                      short(api), fmt(path) if path else "?", where(fn, line)))
        elif not bad:
            R.ok("%s: %d read(s) contained on every path" % (root.short, n))
    # the reader of document-named files is the one the trait implementation reaches
    for fn in fns:
        if fn.short.endswith("as IncludeResolver>::resolve"):
            R.check(bool(P.reach([fn.path]) & readers), "resolver-reader",
                    "the CLI's resolver implementation reads through a checked function")


def not_gated_by_callers(P, root, bad, readers, helpers, R):
    """a plain `read(path)` helper whose opened path is its own parameter: check the callers instead"""
    fn, line, api, path = bad[0]
    if path is None or path[0] != "arg" or fn.path != root.path:
        return True
    idx = path[1] - 1
    callers = [P.fns[c] for c in P.rev().get(root.path, ()) if c in P.fns]
    if not callers:
        return True
    for c in callers:
        ev = []

        class S2(S):
            def call(self, fr, bi, t, names, args, st):
                if root.path in P.callees(names[2]):
                    ev.append((t[5], args[idx], dict(st[1])))
                return None
        sp = S2(P, helpers - {root.path})
        Explorer(sp, P).run(c, [("arg", i + 1, c.lname(i + 1) or "_") for i in range(c.argc)], (0, frozenset()))
        if not ev:
            return True
        for ln, p, facts in ev:
            if cmdline(p) or possible_modes(facts) == {"Unsafe"} or contained(p, facts):
                continue
            return True
    R.ok("%s: containment established by its callers" % root.short)
    return False
