"""Shared machinery of the checks: building the driver, running it on /repo, reporting."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
CACHE = os.environ.get("FV_CACHE", os.path.join(VERIF, ".cache"))
TIERS = {"core": [], "alloc": ["alloc"], "std": ["std"]}
T0 = time.time()


class Broken(Exception):
    """the check itself cannot give an answer (neither holds nor violated)"""


class Endless(Exception):
    """the compiler does not get through a definition: an expansion goes on for ever, or ends in a crash"""

    def __init__(self, path, how):
        super().__init__(f"{path}: {how}")
        self.path, self.how = path, how


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "FMV_"))}
    for k in ("CARGO_HOME",):
        if k in os.environ:
            e[k] = os.environ[k]
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def sh(cmd, **kw):
    kw.setdefault("env", env())
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


_sysroot = {}


def sysroot(tc="nightly"):
    if tc not in _sysroot:
        p = sh(["rustc", "+" + tc, "--print", "sysroot"])
        if p.returncode:
            raise Broken(f"no toolchain {tc}: {p.stderr}")
        _sysroot[tc] = p.stdout.strip()
    return _sysroot[tc]


def project_toolchain():
    """the toolchain the project's own build uses here"""
    p = sh(["rustup", "toolchain", "list"])
    names = [l.split()[0].rsplit("-x86_64", 1)[0] for l in p.stdout.splitlines() if l.strip()]
    return next((n for n in names if n[:1].isdigit()), "stable")


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    """Path of the driver, built if it is not up to date."""
    t = os.path.join(CACHE, "driver")
    p = sh(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml"), "--target-dir", t])
    if p.returncode:
        raise Broken("the driver does not build:\n" + p.stderr[-4000:])
    return os.path.join(t, "debug/fmdriver")


def driver_env(drv, out, crates, flags="--cap-lints warn", **kw):
    return env(LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WRAPPER=drv, FMV_OUT=out, FMV_CRATES=",".join(crates), RUSTC_ICE="0", RUSTFLAGS=flags, **kw)


def forget(target, names):
    """Make cargo compile the named crates again."""
    fp = os.path.join(target, "debug", ".fingerprint")
    bd = os.path.join(target, "debug", "build")
    for d, name in ((fp, lambda n: n.rsplit("-", 1)[0]), (bd, lambda n: n)):
        if os.path.isdir(d):
            for n in os.listdir(d):
                if name(n) in names:
                    shutil.rmtree(os.path.join(d, n))


def harness():
    """A crate outside /repo that depends on /repo/funcmap by path."""
    d = os.path.join(CACHE, "harness")
    os.makedirs(d, exist_ok=True)
    toml = open(os.path.join(VERIF, "harness/Cargo.toml.in")).read().replace("@REPO@", REPO)
    put(os.path.join(d, "Cargo.toml"), toml)
    put(os.path.join(d, "lib.rs"), open(os.path.join(VERIF, "harness/lib.rs")).read())
    return d


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


# a build without debug assertions: their conditions are not evaluated
UNCHECKED = [x for c in ("funcmap", "funcmap_derive") for o in ("debug-assertions=false", "overflow-checks=true") for x in ("--config", f"profile.dev.package.{c}.{o}")]

# the checks that judge the macro crate by its expansions run in both kinds of build, one after the other
off = False


def conditional():
    """does the code of the macro crate depend on debug assertions?"""
    for root, _, files in os.walk(os.path.join(REPO, "funcmap_derive/src")):
        for f in files:
            if f.endswith(".rs") and "debug_assert" in open(os.path.join(root, f), errors="replace").read():
                return True
    return False


def analyse(tier, crates=("funcmap",), checked=True, **kw):
    """Run the driver over /repo's current sources in one feature tier."""
    checked = checked and not off
    drv = driver()
    d = harness()
    t = os.path.join(CACHE, "t-nightly")
    out = os.path.join(CACHE, f"records-{tier}.jsonl")
    if os.path.exists(out):
        os.remove(out)
    forget(t, ("funcmap", "funcmap_derive"))
    cmd = ["cargo", "+nightly", "check", "--offline", "--quiet", "--manifest-path", d + "/Cargo.toml", "--target-dir", t, "--no-default-features"]
    if TIERS[tier]:
        cmd += ["--features", ",".join(TIERS[tier])]
    if not checked:
        cmd += UNCHECKED
    p = sh(cmd, env=driver_env(drv, out, crates, **kw))
    recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    if p.returncode:
        raise Broken(f"funcmap does not build in tier {tier}:\n{p.stderr[-4000:]}")
    for r in recs:
        r["tier"] = tier
    for r in recs:
        if r["kind"] == "fatal":
            raise Broken(f"analysis in tier {tier}: {r['msg']}")
    return recs


# ------------------------------------------------------------------ findings


def known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


class Report:
    """Collects the violations of one property and writes the evidence."""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.bad = []
        self.seen = set()
        self.hits = []
        self.coverage = {}
        self.assumptions = []

    def violation(self, key, what, where, detail=None):
        """`key` identifies the failing construct; the known-findings file lists such keys"""
        if key in self.seen:
            return
        self.seen.add(key)
        for k in known()["known"]:
            if k["property"] == self.prop and k["key"] == key:
                self.hits.append(k)
                return
        self.bad.append({"key": key, "what": what, "where": where, "detail": detail})

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": self.level,
            "coverage": self.coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 3),
            "violations": len(self.bad),
        }
        d = os.environ.get("FV_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(self.prop + ".violation-"):
                os.remove(os.path.join(d, f))
        path = os.path.join(d, self.prop + ".json")
        if off and os.path.exists(path):
            # the second of two runs
            first = json.load(open(path))
            first["coverage"]["without_debug_assertions"] = {k: v for k, v in self.coverage.items() if isinstance(v, (int, float))}
            ev = dict(first, wall_s=ev["wall_s"], violations=ev["violations"])
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.hits if not off else []:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for i, b in enumerate(self.bad):
            p = os.path.join(d, f"{self.prop}.violation-{i}.json")
            with open(p, "w") as f:
                json.dump(dict(b, property=self.prop, rerun=f"cd {VERIF} && ./check {self.prop}"), f, indent=1)
            if i >= 20:
                continue
            print(f"{b['where']}: {b['what']}" + (" (without debug assertions)" if off else ""))
            print(f"VIOLATION property={self.prop} replay={p}")
        n = len(self.bad)
        print(f"{self.prop}{', debug assertions off' if off else ''}: " + ("holds on everything analysed" if not n else f"{n} violation(s)") + f" ({ev['wall_s']} s)")
        return 1 if n else 0
