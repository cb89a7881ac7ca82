"""Witness crates: artifacts of the current tree and rustc runs on generated sources."""
import concurrent.futures
import json
import os
import resource
import signal
import subprocess
import threading
import time

from . import common
from .common import CACHE, UNCHECKED, VERIF, Broken, Endless, driver, driver_env, env, forget, harness, project_toolchain, put, sh, sysroot

_art = {}


def artifacts(tc, feats=("std",)):
    """--extern / -L flags for funcmap and its derive macro, checked with toolchain `tc`"""
    k = (tc, tuple(feats), common.off)
    if k in _art:
        return _art[k]
    name = "wit-" + "-".join([tc, *feats] + ["off"] * common.off)
    t = os.path.join(CACHE, name)
    forget(t, ("funcmap", "funcmap_derive"))
    cmd = ["cargo", "+" + tc, "check", "--offline", "--quiet", "--message-format=json", "--manifest-path", harness() + "/Cargo.toml", "--target-dir", t]
    if feats:
        cmd += ["--features", ",".join(feats)]
    if common.off:
        cmd += UNCHECKED
    p = sh(cmd, env=env(RUSTFLAGS="--cap-lints warn"))
    if p.returncode:
        raise Broken(f"funcmap does not build with {tc}:\n{p.stdout[-3000:]}{p.stderr[-3000:]}")
    files = {}
    dirs = set()
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            dirs.add(os.path.dirname(f))
            if f.endswith((".rmeta", ".so")):
                files[m["target"]["name"].replace("-", "_")] = f
    if "funcmap" not in files:
        raise Broken("no artifact of funcmap found")
    _art[k] = (files, sorted(dirs))
    return _art[k]


def flags(tc, feats=("std",), extern="funcmap"):
    files, dirs = artifacts(tc, feats)
    v = []
    if extern:
        v += ["--extern", f"{extern}={files['funcmap']}"]
    for d in dirs:
        v += ["-L", "dependency=" + d]
    if common.off:
        v += ["-Cdebug-assertions=off"]
    return v


def other(tc):
    """the derive macro of someone else: `(name, file)`"""
    d = os.path.join(CACHE, "other-" + tc)
    f = os.path.join(d, "libfv_other.so")
    src = os.path.join(VERIF, "harness/other.rs")
    if not os.path.exists(f) or os.path.getmtime(f) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        p = sh(["rustc", "+" + tc, "--crate-name", "fv_other", "--crate-type", "proc-macro", "--edition", "2021", "-o", f, src], env=env())
        if p.returncode:
            raise Broken(f"the helper macro does not compile: {p.stderr[-1000:]}")
    return ("fv_other", f)


_stuck = threading.Event()
LONG = 150  # seconds; the crates at hand take a tenth of that at most
SIGNALS = {-signal.SIGABRT: "aborts", -signal.SIGSEGV: "overflows its stack", -signal.SIGBUS: "crashes"}


def _limit():
    # an expansion that never ends must not take all memory with it
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def watched(cmd, e, path, plain=None, long=LONG):
    """run the compiler; `plain` is the command that does nothing but compile the same source"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, preexec_fn=_limit, start_new_session=True)
    end = time.time() + long
    asked = False
    while True:
        try:
            out, err = p.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            over = time.time() > end
            if over and plain and not asked:
                # is it the source or the analysis that takes long?
                asked = True
                try:
                    watched(plain, env(), path, long=LONG // 2)
                except Endless:
                    _stuck.set()
            if _stuck.is_set() or over and not plain:
                _stuck.set()
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                raise Endless(path, "the compiler does not get to the end of it")
    if p.returncode in SIGNALS:
        if plain:
            watched(plain, env(), path)
        else:
            raise Endless(path, "the compiler " + SIGNALS[p.returncode] + ": " + err[-400:])
    p.stdout, p.stderr = out, err
    return p


def compile(tc, path, crate, edition="2021", extra=(), feats=("std",), extern="funcmap", externs=(), analyse=False, json_out=True, clippy=None, denv=None):
    """type-check one crate; returns (ok, diagnostics, records)"""
    out = os.path.join(CACHE, "wit-out", f"{crate}-{os.getpid()}")
    os.makedirs(out, exist_ok=True)
    cmd = ["--crate-name", crate, "--edition", edition, "--crate-type", "lib", "--emit=metadata", "--out-dir", out]
    if json_out:
        cmd += ["--error-format=json"]
    cmd += flags(tc, feats, extern)
    for n, f in externs:
        cmd += ["--extern", f"{n}={f}"]
    cmd += list(extra) + [path]
    recs = []
    if analyse:
        rec = os.path.join(out, "records.jsonl")
        if os.path.exists(rec):
            os.remove(rec)
        e = driver_env(driver(), rec, [crate], **(denv or {}))
        e.pop("RUSTC_WRAPPER")
        p = watched([driver(), "rustc"] + cmd + ["--sysroot", sysroot(tc)], e, path, plain=["rustc", "+" + tc] + cmd)
        if os.path.exists(rec):
            recs = [json.loads(l) for l in open(rec)]
    elif clippy:
        p = watched(["rustup", "run", tc, "clippy-driver", "rustc"] + cmd, env(CLIPPY_CONF_DIR=clippy), path, plain=["rustc", "+" + tc] + cmd)
    else:
        p = watched(["rustc", "+" + tc] + cmd, env(), path)
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    if p.returncode and not diags:
        raise Broken(f"rustc fails on {path}:\n{p.stderr[-3000:]}")
    return p.returncode == 0, diags, recs


def outer(span):
    """line range of the outermost expansion of a span"""
    while span.get("expansion"):
        span = span["expansion"]["span"]
    return span


def parallel(f, items, n=8):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))
