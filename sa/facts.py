"""Extract type-resolved MIR facts from /repo's current working tree."""
import fcntl, glob, hashlib, json, os, pickle, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, ".build"))
TOOL = "+nightly"


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", RUSTUP_TOOLCHAIN="nightly")
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    for k in ("RUSTC_WRAPPER", "CARGO_BUILD_RUSTC_WRAPPER", "RUSTC"):
        e.pop(k, None)
    return e


def _run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=kw.pop("env", _env()), **kw)


def sysroot():
    r = _run(["rustc", TOOL, "--print", "sysroot"])
    if r.returncode:
        raise BuildError("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


def source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            # everything the build can read: sources, manifests, include_str! data
            if f.endswith((".rs", ".toml", ".lock", ".css", ".js", ".html", ".adoc", ".xml", ".svg", ".txt")):
                files.append(os.path.join(root, f))
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24], len(files)


def ensure_driver(sysr):
    src = os.path.join(VERIF, "sa", "driver.rs")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read() + sysr.encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "driver-" + key)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = _run(["rustc", TOOL, "-O", "--edition", "2021", "-Awarnings", src, "-o", tmp])
        if r.returncode:
            raise BuildError("driver does not build:\n" + r.stderr[-4000:])
        os.rename(tmp, out)
    return out, key


EXPECT = ["asciidork_ast.lib", "asciidork_backend.lib", "asciidork_backend_html5s.lib",
          "asciidork_core.lib", "asciidork_dr_html_backend.lib", "asciidork_eval.lib",
          "asciidork_parser.lib", "asciidork.bin", "dr_html_wasm.lib"]


def dump():
    """Returns (dump_dir, info)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sysr = sysroot()
        drv, dkey = ensure_driver(sysr)
        sh, nfiles = source_hash()
        d = os.path.join(BUILD, "dump-%s-%s" % (sh, dkey))
        info = {"source_hash": sh, "source_files": nfiles, "dir": d, "reused": os.path.exists(d)}
        if os.path.exists(d):
            return d, info
        for old in glob.glob(os.path.join(BUILD, "dump-*")):
            shutil.rmtree(old, ignore_errors=True)
        tmp = os.path.join(BUILD, "tmpdump")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the wrapper: forget the members
        for pat in ("asciidork*", "dr-html-wasm*", "dr_html_wasm*", "test-utils*", "test_utils*", "tck*"):
            for sub in (".fingerprint", "build"):
                for p in glob.glob(os.path.join(tgt, "debug", sub, pat)):
                    shutil.rmtree(p, ignore_errors=True)
        e = _env()
        e.update(SA_DUMP_DIR=tmp, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
                 LD_LIBRARY_PATH=sysr + "/lib", CARGO_INCREMENTAL="0")
        r = _run(["cargo", TOOL, "check", "--offline", "--workspace", "--locked"], cwd=REPO, env=e)
        if r.returncode and "lock file" in r.stderr:
            r = _run(["cargo", TOOL, "check", "--offline", "--workspace"], cwd=REPO, env=e)
        if r.returncode:
            raise BuildError("cargo check failed:\n" + r.stderr[-4000:])
        missing = [x for x in EXPECT if not os.path.exists(os.path.join(tmp, x + ".json"))]
        if missing:
            shutil.rmtree(tgt, ignore_errors=True)
            r = _run(["cargo", TOOL, "check", "--offline", "--workspace"], cwd=REPO, env=e)
            if r.returncode:
                raise BuildError("cargo check failed:\n" + r.stderr[-4000:])
            missing = [x for x in EXPECT if not os.path.exists(os.path.join(tmp, x + ".json"))]
        if missing:
            raise BuildError("no facts dumped for " + ", ".join(missing))
        os.rename(tmp, d)
        return d, info


if __name__ == "__main__":
    print(dump())
