"""C24: library items and language features against the documented minimum Rust version."""
import os
import re

from . import derive, gen, wit
from .common import REPO, Broken, Report, analyse, sysroot

# README.md and both manifests document 1.65, which a later edition than 2021 or a later rust-version would break
MINIMUM = (1, 65)
ENV = "%d.%d" % MINIMUM


def manifest(rep, name):
    path = os.path.join(REPO, name, "Cargo.toml")
    text = re.sub(r"(?m)#.*$", "", open(path).read())
    package = text[text.index("[package]") :]
    m = re.search(r"(?m)^\[", package[1:])
    package = package[: m.start() + 1] if m else package
    v = re.search(r'(?m)^\s*rust-version\s*=\s*"([\d.]+)"', package)
    e = re.search(r'(?m)^\s*edition\s*=\s*"(\d+)"', package)
    if v and tuple(map(int, (v[1] + ".0").split(".")[:2])) > MINIMUM:
        rep.violation(f"{name} rust-version", f"{name} demands Rust {v[1]}, documented is {ENV}", path)
    if e and int(e[1]) > 2021:
        rep.violation(f"{name} edition", f"{name} is of edition {e[1]}, which Rust {ENV} does not know", path)
    return f"{name}/Cargo.toml: rust-version {v[1] if v else None}, edition {e[1] if e else None}"


def c24():
    rep = Report("C24", "other")
    seen = [manifest(rep, n) for n in ("funcmap", "funcmap_derive")]
    uses = items = 0

    def take(recs, what):
        nonlocal uses, items
        ok = False
        for r in recs:
            if r["kind"] == "msrvc":
                ok = True
                uses += r["uses"]
                items += r["items"]
                seen.append(f"{what}, crate {r['crate']}: {r['uses']} uses of library items, {r['items']} of them different")
        if not ok:
            raise Broken(f"no analysis of {what}")
        for r in recs:
            if r["kind"] == "msrv":
                yield r

    for t in ("core", "alloc", "std"):
        for r in take(analyse(t, ("funcmap", "funcmap_derive"), FMV_MSRV=ENV), f"feature tier {t}"):
            rep.violation(f"{r['what']} at {r['at'].split(':')[0]}", f"`{r['what']}` exists only since Rust {r['since']}; documented is {ENV}", r["at"], r)
    # what the derives generate
    defs = [d for g in (gen.types_group, gen.generics_group, gen.bounds_group) for d in g(False, derive.seed())]
    if not derive.tier():
        defs = defs[::4]
    derive.number(defs)
    wit.artifacts("nightly")
    wit.driver()
    sysroot()
    n = derive.CHUNK
    chunks = [("c24", i // n, defs[i : i + n], {"compile": {"denv": {"FMV_MSRV": ENV}}}) for i in range(0, len(defs), n)]
    derived = 0
    for todo, _, recs, name in wit.parallel(derive.chunk_run, chunks):
        if not todo:
            continue
        derived += len(todo)
        for r in take(recs, "derived impls"):
            rep.violation(f"derived: {r['what']}", f"derived impls use `{r['what']}`, which exists only since Rust {r['since']}; documented is {ENV}", "funcmap_derive/src/derive.rs", r)
    if not derived:
        raise Broken("no definition compiles")
    rep.coverage = {
        "explanation": f"Every path, method call and macro call of the type-checked crates, in every feature tier, and of the impls derived for {derived} definitions is resolved; where it names an item of the standard library (or is dispatched through an impl of it, found by the trait solver), that item must be stable since Rust {ENV} or earlier. The expanded syntax tree must not contain constructs stabilised later.",
        "obligations": uses,
        "items": items,
        "programs": derived,
        "functions": seen,
        "samples": seen[:4],
    }
    rep.assumptions = [
        "the stability attributes of the standard library state the version from which an item can be used (changes of inference, of lints and of trait impls conditional on bounds are not covered)",
        "code that no feature tier or only another target compiles is not analysed; versions of the dependencies are chosen by the user's lock file",
    ]
    return rep.finish()


CHECKS = {"C24": c24}
