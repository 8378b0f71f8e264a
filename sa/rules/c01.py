"""A CLI run reports success exactly when the converted document was delivered.

Typestate over everything reachable inside the `asciidork` binary crate from
`main`: parse -> convert -> (helper process) -> one delivery (stdout or file) ->
return Ok.  Every fallible step is forked into its success and failure outcome;
a path on which a step failed (or delivery never happened, or happened twice, or
happened before conversion succeeded) must not end in exit status 0."""
from common import where
from engine import Explorer, Spec
from mir import MissingAnchor, fmt
from rules.attrs import template

ORDER = ("none", "parsed", "converted", "written")


def is_stdout(e, d=0):
    if not isinstance(e, tuple) or not e or d > 6:
        return False
    if e[0] == "call":
        n = e[1]
        if n in ("io::stdout", "stdio::stdout", "stdout"):
            return True
        if n.endswith("::stdout") and not e[2]:
            return True
        return any(is_stdout(a, d + 1) for a in e[2][:1] if isinstance(a, tuple))
    if e[0] in ("ref", "field", "as", "un"):
        return any(is_stdout(x, d + 1) for x in e[1:] if isinstance(x, tuple))
    return False


def ends_line(args):
    """the written text certainly ends with a line break"""
    for a in args:
        while isinstance(a, tuple) and a and (a[0] == "ref" or a[0] == "call" and a[1].endswith("as_bytes")):
            a = a[1] if a[0] == "ref" else a[2][0]
        if a[0] == "k" and isinstance(a[1], (str, tuple, bytes)):
            return a[1][-1:] in ("\n", (10,), b"\n")
        ps = template(a)
        return bool(ps) and isinstance(ps[-1], str) and ps[-1].endswith("\n")
    return False


def const_data(args):
    """no runtime data inside the written value"""
    def dyn(e):
        if not isinstance(e, tuple) or not e:
            return False
        if e[0] in ("var", "arg", "field", "elem", "idx"):
            return True
        return any(dyn(x) for x in e if isinstance(x, tuple))
    return not any(dyn(a) for a in args)


class S(Spec):
    max_states = 400000

    def __init__(self, P, crate, notes):
        self.P, self.crate, self.notes = P, crate, notes
        self.sinks, self.errs, self.steps, self.writers = [], [], {}, {}

    def sink_of(self, fr, e, d=0):
        """(destination, is it buffered) of a writer"""
        if not isinstance(e, tuple) or not e or d > 6:
            return None, False
        if is_stdout(e):
            return "stdout", any(w in str(e) for w in ("BufWriter::", "LineWriter::"))
        if e[0] == "var" and e[3] == fr.fn.short:
            ty = fr.fn.ty(e[2])
            buf = "BufWriter" in ty or "LineWriter" in ty
            if (e[3], e[2]) in self.writers:
                return self.writers[(e[3], e[2])], buf
            if "fs::File" in ty or ty.endswith("File"):
                return "file", buf
            if "Stdout" in ty:
                return "stdout", buf
        if e[0] == "call" and e[1] in ("File::create", "File::create_new"):
            return "file", False
        if e[0] == "call" and e[2]:
            w, b = self.sink_of(fr, e[2][-1] if e[1].endswith("with_capacity") else e[2][0], d + 1)
            return w, b or bool(w) and "Writer" in e[1]
        if e[0] in ("ref", "field", "as", "un"):
            return self.sink_of(fr, e[1], d + 1)
        return None, False

    def descend(self, path):
        fn = self.P.fns.get(path)
        return fn is not None and fn.crate == self.crate and not fn.path.startswith("<args::") and "::args::" not in path \
            and "resolver" not in path

    def track(self, fr, e, kind):
        if kind == "bool":
            if e[0] == "isvar":
                return e
            if e[0] in ("field", "eq"):
                return ("b", e)
        if kind == "discr" and e[2] in ("Option", "Output"):
            return ("d", e[1])
        return None

    def learn(self, facts, key, v):
        d = dict(facts)
        # one vocabulary for `is_some()` tests and Option matches
        if key[0] == "isvar" and set(key[2]) <= {"Some", "None"}:
            k2 = ("d", key[1])
            want = frozenset(key[2]) if v else frozenset({"Some", "None"}) - frozenset(key[2])
            if k2 in d and not (d[k2] & want):
                return None
            return facts | {(key, v), (k2, want)} if k2 not in d else facts | {(key, v)}
        return facts | {(key, v)}

    def err(self, fr, t, key, text):
        self.errs.append((fr.fn, t[5], key, text))

    def step(self, fr, t, what, st, good, tags=("Ok", "Err")):
        self.steps.setdefault(what, set()).add((fr.fn.short, t[5]))
        (ph, child, failed), facts = st
        return [(((good or ph), child, failed), facts, tags[0]), ((ph, child, failed or what), facts, tags[1])]

    def call(self, fr, bi, t, names, args, st):
        nm, tn, f = names
        (ph, child, failed), facts = st
        R = lambda outs: [((a, fa), ("tagged", "Result", tg)) for a, fa, tg in outs]
        if f[1].split("<")[0].endswith("Parser::parse") and "asciidork_parser" in f[1] or nm == "Parser::parse" and "asciidork_parser" in (f[2] or f[1]):
            return R(self.step(fr, t, "parsing", st, "parsed"))
        if f[1].split("::")[-1] == "convert" and "backend" in f[1]:
            if ph != "parsed" or failed:
                self.err(fr, t, "convert:%s" % ph, "conversion is reached on a path where parsing did not succeed")
            return R(self.step(fr, t, "conversion", st, "converted"))
        if self.css(f[2] or f[1]):
            self.steps.setdefault("stylesheet resolution", set()).add((fr.fn.short, t[5]))
            k = ("css-failed",)
            return [(((ph, child, failed), facts | {(k, False)}), ("tagged", "Result", "Ok")),
                    (((ph, child, failed), facts | {(k, True)}), ("tagged", "Result", "Err"))]
        if tn in ("Result::unwrap", "Result::expect", "Result::expect_err", "Result::unwrap_err"):
            v = args[0]
            if v[0] == "tagged" and v[2] in ("Ok", "Err"):
                bad = "Err" if tn in ("Result::unwrap", "Result::expect") else "Ok"
                return [] if v[2] == bad else [(st, None)]
            return None
        if tn in ("Result::is_ok", "Result::is_err", "Try::branch", "Result::map_err"):
            if tn == "Result::map_err" and args[0][0] == "tagged":
                return [(st, args[0])]
            return None
        if nm.endswith("Command::spawn") or nm.endswith("Command::output") or nm.endswith("Command::status"):
            out = self.step(fr, t, "starting the helper process", st, None)
            return R([((a[0], "pending", a[2]), fa, tg) if tg == "Ok" else (a, fa, tg) for a, fa, tg in out])
        if nm.endswith("Child::wait_with_output") or nm.endswith("Child::wait"):
            return R(self.step(fr, t, "waiting for the helper process", st, None))
        if nm.endswith("ExitStatus::success"):
            self.steps.setdefault("helper exit status", set()).add((fr.fn.short, t[5]))
            return [(((ph, "ok", failed), facts), ("k", True)),
                    (((ph, child, failed or "the helper process"), facts), ("k", False))]
        if nm.endswith("ExitStatus::code"):
            self.steps.setdefault("helper exit status", set()).add((fr.fn.short, t[5]))
            return [(((ph, "ok", failed), facts), None)]
        if tn in ("BufWriter::new", "LineWriter::new", "BufWriter::with_capacity") and len(t[3]) == 1:
            w, _ = self.sink_of(fr, args[-1])
            if w:
                self.writers[(fr.fn.short, t[3][0])] = w
            return None
        sink, buffered = None, False
        if tn in ("Write::write_fmt", "Write::write_all", "Write::write", "Write::flush") and args:
            sink, buffered = self.sink_of(fr, args[0])
            if sink:
                pass
            elif tn == "Write::flush":
                return None
            elif "Child" in str(fr.fn.types[fr.fn.locals[t[2][0][1][0]][0]]) if t[2][0][0] in ("p", "m") else False:
                return R(self.step(fr, t, "feeding the helper process", st, None))
        elif f[1] == "std::fs::write":
            sink = "file"
        elif nm.split("::")[-1] in ("_print",) and "stdio" in f[1]:
            self.err(fr, t, "print!", "prints to stdout outside of the delivery step")
            return None
        elif nm in ("File::create", "File::create_new") and ph == "converted" and not failed and child != "pending":
            return R(self.step(fr, t, "creating the output file", st, None))
        elif nm in ("File::create", "File::create_new", "OpenOptions::open"):
            self.err(fr, t, "File::create", "creates a file outside of the delivery step")
            return None
        if sink and tn == "Write::flush":
            return R(self.step(fr, t, "flushing " + sink, st, "written" if ph == "buffered" else None))
        if sink:
            # what stays in a buffer is only written when the process ends, and then failures are lost
            keeps = buffered or sink == "stdout" and not ends_line(args[1:])
            if ph == "buffered" and not failed and const_data(args[1:]):
                return R(self.step(fr, t, "delivery to " + sink, st, None if keeps else "written"))
            if not failed and ph in ("converted", "written") and child != "pending" and const_data(args[1:]):
                return R(self.step(fr, t, "delivery to " + sink, st, None))     # separators and the like
            if failed:
                self.err(fr, t, "write-after-failure:%s" % sink, "writes to %s although %s failed" % (sink, failed))
            elif ph in ("written", "buffered"):
                self.err(fr, t, "double-write:%s" % sink, "delivers output a second time (%s)" % sink)
            elif ph != "converted":
                self.err(fr, t, "early-write:%s" % sink, "writes to %s before the document was converted" % sink)
            elif child == "pending":
                self.err(fr, t, "child-status", "delivers the output of a helper process whose exit status was not checked")
            self.steps.setdefault("delivery to " + sink, set()).add((fr.fn.short, t[5]))
            # an interrupted `write` may be short
            if tn == "Write::write":
                self.err(fr, t, "short-write", "`write` may deliver only part of the document")
            return R(self.step(fr, t, "delivery to " + sink, st, "buffered" if keeps else "written"))
        if nm in ("File::open",) or f[1] in ("std::fs::read_to_string", "std::fs::read", "dunce::canonicalize") or \
                tn in ("Read::read_to_string", "Read::read_to_end"):
            if self.input_fn(fr):
                return R(self.step(fr, t, "reading the input", st, None))
            return None
        if nm in ("process::exit",):
            v = args[0]
            if v == ("k", 0):
                self.finish(fr, t, st)
            elif v[0] != "k":
                self.err(fr, t, "exit-code", "exit status %s is not a constant" % fmt(v))
            return []
        return None

    def css(self, path):
        fn = self.P.fns.get(path)
        return fn is not None and fn.crate == self.crate and fn.ty(0).startswith(("core::result::Result", "std::result::Result")) \
            and any("Document" in fn.ty(i + 1) for i in range(fn.argc))

    def input_fn(self, fr):
        # the document itself (not stylesheets, which have their own error path)
        return "css" not in fr.fn.path

    def finish(self, fr, t, st):
        (ph, child, failed), facts = st
        line = t[5] if t else fr.fn.line
        if failed:
            self.errs.append((fr.fn, line, "ok-after-failure:" + failed,
                              "a path ends with exit status 0 although %s failed" % failed))
        elif (("css-failed",), True) in facts and not any(
                k[0] == "b" and k[1][0] == "field" and k[1][2] == "strict" and v is False for k, v in facts):
            self.errs.append((fr.fn, line, "strict-stylesheet", "a strict run can end with exit status 0 although the stylesheet could not be read"))
        elif ph == "buffered":
            self.errs.append((fr.fn, line, "ok-unflushed",
                              "a path ends with exit status 0 while the end of the output may still sit in a buffer that was never flushed"))
        elif ph != "written":
            self.errs.append((fr.fn, line, "ok-without-output:" + ph,
                              "a path ends with exit status 0 without delivering output (stage: %s)" % ph))
        elif child == "pending":
            self.errs.append((fr.fn, line, "ok-child", "a path ends with exit status 0 without checking the helper process"))


def run(P, R, tier):
    mains = [f for f in P.fns.values() if f.short.split("::")[-1] == "main" and f.crate in ("asciidork", "asciidork_cli", "cli")]
    if len(mains) != 1:
        raise MissingAnchor("main of the asciidork binary")
    main = mains[0]
    sp = S(P, main.crate, R)
    ex = Explorer(sp, P)
    res = ex.run(main, (), (("none", "none", ""), frozenset()))
    n_ok = n_err = 0
    for rv, st in res:
        tg = Explorer.tag(rv) if rv is not None else None
        if tg == "Err":
            n_err += 1
            continue
        n_ok += 1

        class F:
            fn = main
        sp.finish(F, None, st)
    seen = set()
    for fn, line, key, text in sp.errs:
        if key in seen:
            continue
        seen.add(key)
        R.bad("%s:%s" % (fn.short, key), "%s: %s" % (where(fn, line), text))
    for what, sites in sorted(sp.steps.items()):
        R.ok("%s: %d call site(s) forked into success and failure" % (what, len(sites)))
    R.count("functions explored", len(ex.fns_seen))
    R.count("call sites", ex.sites)
    R.count("path states explored", ex.n_states)
    R.count("end states with exit 0", n_ok)
    R.count("end states with an error", n_err)
    for w, n in (("parsing", 1), ("conversion", 1), ("delivery to stdout", 1), ("delivery to file", 1)):
        R.count("sites of " + w, len(sp.steps.get(w, ())))
        R.floor("sites of " + w, n)
