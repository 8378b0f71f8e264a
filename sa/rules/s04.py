"""The library crates reach the outside world only through their declared channels.

Every use (call or function reference) of a function that is defined outside
the workspace, in every library crate, is classified: crates and modules that
can perform effects (files, network, processes, environment, threads, standard
input/output, clocks, raw system interfaces) are denied, unknown crates are
denied, and the few declared uses are allowed only where their guard holds."""
from common import where, expr_any
import gates
from mir import short
from rules.effects import externals, ops, clean
from rules.policy import mode_fact, mode_testers, possible_modes

# crates whose API performs no input/output
PURE = {"core", "alloc", "bumpalo", "smallvec", "regex", "lazy_static", "roman_numerals_fn", "memchr", "hashbrown",
        "aho_corasick", "regex_automata", "regex_syntax", "unicode_width", "itoa", "ryu", "indexmap", "wasm_bindgen",
        "tracing", "tracing_core", "console_error_panic_hook", "either", "arrayvec", "tinyvec", "serde", "serde_core"}
# date crates: formatting and parsing only
DATES = {"jiff", "chrono", "dateparser"}
CLOCK = ("::now", "::today", "Local::", "::system", "local_timestamp", "::elapsed")
PURE_STD = ("std::collections", "std::hash", "std::path::Path::new", "std::path::Path::extension",
            "std::path::Path::to_str", "std::path::Path::to_string_lossy", "std::path::Path::file_name",
            "std::path::Path::file_stem", "std::path::Path::parent", "std::path::Path::components",
            "std::path::Path::join", "std::path::Path::starts_with", "std::path::Path::ends_with",
            "std::path::Path::is_absolute", "std::path::Path::is_relative", "std::path::Path::display",
            "std::path::Path::as_os_str", "std::path::Path::strip_prefix", "std::path::Path::to_path_buf",
            "std::path::Path::with_extension", "std::path::Path::with_file_name",
            "std::path::PathBuf", "std::path::Component", "std::path::Display", "std::ffi", "std::sync::once_lock",
            "std::sync::lazy_lock", "std::error", "std::ascii", "std::panicking::begin_panic", "std::rt::begin_panic",
            "std::rt::panic", "std::f32", "std::f64", "std::num", "std::string", "std::vec", "std::option", "std::result",
            "std::io::error", "std::io::Error", "std::rc", "std::iter", "std::str", "std::char", "std::fmt", "std::mem",
            "std::cell", "std::borrow", "std::cmp", "std::ops", "std::slice", "std::alloc::handle_alloc_error")
STDERR = ("std::io::stdio::_eprint",)
HOME = ("std::env::home_dir", "std::env::_home_dir")
PRIM = {"str", "char", "bool", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
        "f32", "f64", "", "[T]", "[u8]"}


def classify(p):
    root = p.split("::")[0]
    if root in PRIM or root.startswith("["):
        return "pure"
    if root.startswith(("asciidork", "dr_html", "test_utils", "html5s")):
        return "pure"
    if root in PURE:
        return "pure"
    if root in DATES:
        return "clock" if any(c in p for c in CLOCK) else "pure"
    if p.startswith(STDERR):
        return "stderr"
    if p.startswith(HOME):
        return "home"
    if root == "std":
        return "pure" if p.startswith(PURE_STD) else "effect"
    if len(root) <= 2 and root[:1].isupper():   # type parameter
        return "pure"
    if root in ("Self", "dyn", "impl", "(", "()") or root.startswith(("dyn ", "impl ", "(")):
        return "pure"
    return "unknown"


def run(P, R, tier):
    R.rule("effect inventory: every function from outside the workspace that a library crate calls or references is in "
           "a crate or module without input/output; stderr diagnostics are allowed")
    R.rule("home directory lookup <= safe mode is Unsafe or Safe on every path")
    seen = set()
    home = set()
    for fn, p, ln in externals(P):
        R.count("external function uses", 1)
        k = classify(p)
        seen.add((fn.crate, p.split("::")[0]))
        if k == "home":
            home.add(fn.path)
            R.count("home directory lookups", 1)
        elif k in ("effect", "clock", "unknown"):
            what = {"effect": "an effectful std API", "clock": "the clock",
                    "unknown": "a crate that is not known to be free of effects"}[k]
            R.bad("%s:%s:%s" % (k, fn.short, p), "library code uses %s: %s at %s" % (what, p, where(fn, ln)))
    for fn in P.fns.values():
        if fn.crate == "asciidork":
            continue
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if rv[0] == "asm" or "InlineAsm" in str(rv[:2]):
                    R.bad("asm:" + fn.short, "inline assembly at " + where(fn, ln))
    for c, r in sorted(seen):
        R.ok("crate %s uses only effect-free parts of `%s`" % (c, r or "primitive types"))
    R.floor("external function uses", 3000)
    direct = mode_testers(P)
    helpers = gates.helper_set(P, direct, home)

    def key(fr, e, kind):
        return mode_fact(P, e, kind)

    def mk(sub):
        def is_sink(fr, t, names, args):
            if sub is None:
                return "home" if (names[2][2] or names[2][1]).startswith(HOME) or any(
                    a[0] == "fnref" and str(a[1]).startswith(HOME) for a in args) else None
            if sub in P.callees(names[2]) or any(a[0] == "closure" and a[1] == sub for a in args):
                return sub
            return None

        def gated(fr, t, names, args, facts):
            return not possible_modes(facts) & {"Server", "Secure"}

        def sink_like(fn, t):
            if sub is None:
                return t[1][0] == "fn" and any((x or "").startswith(HOME) for x in t[1][1:3]) or "home_dir" in str(t[2])
            return sub in P.callees(t[1]) or P.fns[sub].kind == "Closure" and expr_any(
                fn.sym_call(t), lambda e: e[0] == "closure" and e[1] == sub)
        return gates.GateSpec(P, is_sink, key, gated, helpers, sink_like)

    bad = gates.open_paths(P, home, mk, R, lambda f: f.path in direct or any(c[0] in helpers for c in P.callgraph()[f.path]))
    for chain in bad:
        fn, line = chain[-1]
        R.bad("home:" + chain[-1][0].short, "the home directory can be looked up in server or secure mode; path: " +
              " -> ".join(where(f, l) for f, l in chain))
    if home and not bad:
        R.ok("the home directory is looked up only in unsafe or safe mode (%s)" % ", ".join(sorted(P.fns[h].short for h in home)))
    # no foreign functions declared by the libraries themselves
    ext = [u for u in P.unsafe if "extern" in str(u).lower()]
    R.check(not ext, "extern", "no foreign function interface in the library crates")

