"""Derived impls of generated definitions against the type-checked definition (C11-C16)."""
import copy
import os
import re

from . import gen, wit
from .common import CACHE, REPO, Broken, Report, put, sysroot
from .headers import sources

CHUNK = 60
SRC = "funcmap_derive/src/derive.rs"


def number(defs):
    for i, d in enumerate(defs):
        d.mod = f"m{i}"
    return defs


def first_line(d):
    return " ".join(d.text.replace("@D@", "").split())[:300]


def where(diag):
    for s in diag.get("spans", []):
        if s["is_primary"]:
            return wit.outer(s)["line_start"]
    for s in diag.get("spans", []):
        return wit.outer(s)["line_start"]
    for c in diag.get("children", []):
        for s in c.get("spans", []):
            return wit.outer(s)["line_start"]
    return None


def chunk_run(args):
    """compile one chunk with the driver, dropping definitions that do not compile"""
    tag, k, defs, kw = args
    bad = {}
    todo = list(defs)
    name = f"fv_wit_{tag}_{k}"
    recs = []
    for rnd in range(12):
        if not todo:
            break
        src, lines = gen.crate(todo, **kw.get("crate", {}))
        path = os.path.join(CACHE, "wit-src", f"{name}.rs")
        put(path, src)
        ok, diags, recs = wit.compile("nightly", path, name, analyse=kw.get("analyse", True), **kw.get("compile", {}))
        if ok:
            break
        hit = set()
        for d in diags:
            if d["level"] not in ("error", "error: internal compiler error"):
                continue
            l = where(d)
            for m, (a, b) in lines.items():
                if l is not None and a <= l <= b:
                    hit.add(m)
                    bad.setdefault(m, d)
        if not hit:
            raise Broken(f"witness crate {path} does not compile: {[d.get('rendered', '') for d in diags][:3]}")
        todo = [d for d in todo if d.mod not in hit]
    return todo, bad, recs, name


def analyse(tag, defs, **kw):
    """returns (records by (mod, trait), definitions that do not compile, crates linked)"""
    number(defs)
    wit.artifacts("nightly")
    wit.driver()
    sysroot()
    chunks = [(tag, i // CHUNK, defs[i : i + CHUNK], kw) for i in range(0, len(defs), CHUNK)]
    by, bad, linked = {}, {}, set()
    for todo, b, recs, _ in wit.parallel(chunk_run, chunks):
        bad.update(b)
        for r in recs:
            if r["kind"] == "fatal":
                raise Broken(r["msg"])
            if r["kind"] == "dimpl":
                by.setdefault((r["module"].split("::")[0], r["trait"]), []).append(r)
            elif r["kind"] == "dcrate":
                linked.update(r["crates"])
    return by, bad, linked


def plain(text):
    """the definition without its `#[funcmap(..)]` options"""
    while True:
        m = re.search(r"#\[\s*funcmap\s*\(", text)
        if not m:
            return text
        i, depth = m.end(), 1
        while depth:
            if text[i] == '"':
                i = text.index('"', i + 1)
            depth += {"(": 1, ")": -1}.get(text[i], 0)
            i += 1
        text = text[: m.start()] + text[text.index("]", i) + 1 :]


def legal(tag, defs, **kw):
    """splits definitions into those that are fine without the derive and those that are not"""
    number(defs)
    twins = [copy.copy(d) for d in defs]
    for t in twins:
        t.text = plain(t.text)
    c = {**kw.get("crate", {}), "derive": ""}
    _, bad, _ = analyse(tag + "_twin", twins, crate=c, compile=kw.get("compile", {}), analyse=False)
    return [d for d in defs if d.mod not in bad], [(d, bad[d.mod]) for d in defs if d.mod in bad]


TRUST = [
    "rustc's type checker, trait solver and MIR construction (nightly)",
    "the nested types' own impls keep the contract of the traits (C01, C02 for the built-in ones)",
    "the enumerated definitions stand for the macro's handling of definitions of that form",
]


def describe(d):
    return d.note or first_line(d)


def check_bodies(rep, prop, trait, defs, by, bad, stats):
    for d in defs:
        if d.mod in bad:
            e = bad[d.mod]
            rep.violation(f"compile: {first_line(d)}", f"the derived impl does not compile for `{first_line(d)}`: {e['message']}", "funcmap_derive/src/derive.rs", {"definition": d.text, "error": e.get("rendered")})
            continue
        rs = by.get((d.mod, trait), [])
        if not rs:
            rep.violation(f"none: {first_line(d)}", f"no {trait} impl is derived for `{first_line(d)}`", "funcmap_derive/src/derive.rs", {"definition": d.text})
        for r in rs:
            stats["impls"] += 1
            stats["exits"] += r.get("exits", 0)
            stats["closures"] += r.get("sites", 0)
            stats["steps"] += r.get("steps", 0)
            if r["status"] != "ok":
                what = r["msg"] if r["status"] == "violation" else "cannot be established: " + r["msg"]
                rep.violation(f"{r['status']}: {first_line(d)} {r['index']}", f"{r['header']}, derived for `{first_line(d)}`: {what}", "funcmap_derive/src/map.rs", {"definition": d.text, "record": r})
            for o in r.get("over", []):
                if not o.split(": ", 1)[1].startswith("ok"):
                    rep.violation(f"over: {first_line(d)}", f"derived impl for `{first_line(d)}` overrides {o}", "funcmap_derive/src/derive.rs", r)


def tier():
    return os.environ.get("VERIF_TIER", "quick") == "thorough"


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def seeds():
    return range(seed(), seed() + (12 if tier() else 1))


def group(g):
    """every definition of a group once, over all seeds of the tier"""
    out = {}
    for s in seeds():
        for d in g(True, s):
            out.setdefault(d.text, d)
    return list(out.values())


def samples(defs, n=6):
    return [first_line(d) for d in defs[:: max(1, len(defs) // n)]][:n]


def missing(rep, d, bad):
    if d.mod in bad:
        e = bad[d.mod]
        rep.violation(f"compile: {first_line(d)}", f"the derived impls do not compile for `{first_line(d)}`: {e['message']}", "funcmap_derive/src/derive.rs", {"definition": d.text, "error": e.get("rendered")})
        return True
    return False


def bodies(prop, trait):
    rep = Report(prop, "translation_validation")
    defs = group(gen.types_group) + gen.generics_group(False, seed())[::6] + gen.bounds_group(False, seed())[::8]
    defs += gen.large_types(tier(), seed())
    by, bad, _ = analyse(prop.lower(), defs)
    stats = dict(impls=0, exits=0, closures=0, steps=0)
    check_bodies(rep, prop, trait, defs, by, bad, stats)
    rep.coverage = {
        "explanation": f"{len(defs)} definitions enumerated from a grammar of field types (all constructors of one level, pairs of two levels, random deeper ones), shapes, generics and bounds are derived by the current macro. Every generated {trait} impl is interpreted on MIR, nested mapping calls as events and every closure handed to one as a function of its own; on each exit the trace of events and the result must equal what the type-checked definition demands (fields in definition order, each occurrence at every nesting depth through the argument it occurs in, everything else moved)."
        + (" On a failing exit the trace is cut at the first failure and its error is returned." if trait == "TryFuncMap" else ""),
        "programs": len(defs),
        "obligations": stats["impls"] + stats["closures"],
        "exits_checked": stats["exits"],
        "mir_steps": stats["steps"],
        "samples": samples(defs),
    }
    rep.assumptions = TRUST
    return rep.finish()


def conditional_code(rep):
    """a `cfg` in generated code is about the user's crate: no impl may depend on it"""
    n = 0
    for p, code in sources("funcmap_derive/src"):
        for m in re.finditer(r"\b\w*quote\w*\s*!\s*([(\[{])", code):
            n += 1
            i, depth = m.end(), 1
            while i < len(code) and depth:
                depth += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(code[i], 0)
                i += 1
            x = re.compile(r"\bcfg(_attr)?\s*[!(\[{]").search(code, m.end(), i)
            if x:
                at = f"{p}:{code.count(chr(10), 0, x.start()) + 1}"
                rep.violation(f"cfg in generated code, {p}: {' '.join(code[m.start():i].split())[:200]}", "what is derived depends on the configuration of the user's crate", at, {"at": at})
    return n


def c13():
    rep = Report("C13", "translation_validation")
    defs = group(gen.generics_group) + group(gen.types_group)[::8] + gen.bounds_group(False, seed())[::4]
    defs += gen.foreign_group()
    by, bad, _ = analyse("c13", defs, compile={"externs": [wit.other("nightly")]})
    quotes = conditional_code(rep)
    n = 0
    for d in defs:
        if missing(rep, d, bad):
            continue
        for tr in ("FuncMap", "TryFuncMap"):
            rs = by.get((d.mod, tr), [])
            n += len(rs)
            got = sorted(r["index"] for r in rs)
            if got != d.sel:
                rep.violation(f"{tr} indices: {first_line(d)}", f"`{first_line(d)}` derives {tr} for the positions {got}, selected are {d.sel}", "funcmap_derive/src/derive.rs", {"definition": d.text, "impls": [r["header"] for r in rs]})
            for r in rs:
                for b in r["bad"]:
                    rep.violation(f"{tr} header: {first_line(d)} {r['index']}", f"{r['header']}, derived for `{first_line(d)}`: {b}", "funcmap_derive/src/derive.rs", {"definition": d.text, "record": r})
    rep.coverage = {
        "explanation": f"{len(defs)} definitions (parameter lists of up to 5 type, const and lifetime parameters in every order, with defaults, bounds and attributes; every selection in every order, written as one option, several or several attributes) are derived by the current macro. In the type-checked result the set of marker indices of each trait must be exactly the selected positions, one impl each; the argument at that position must be the source type, all other arguments (regions included) distinct parameters, and the output the same type with that argument replaced. None of the pieces of code the macro is made of has a `cfg` in it.",
        "programs": len(defs),
        "obligations": n,
        "unconditional_quotes": quotes,
        "samples": samples(defs),
    }
    rep.assumptions = TRUST[:1] + TRUST[2:]
    return rep.finish()


def c14():
    rep = Report("C14", "translation_validation")
    defs = group(gen.bounds_group) + gen.unsized_group() + group(gen.types_group)[::6] + gen.generics_group(False, seed())[::4]
    defs += gen.large_bounds(tier(), seed())
    defs += gen.foreign_group()
    by, bad, _ = analyse("c14", defs, compile={"externs": [wit.other("nightly")]})
    n = k = 0
    for d in defs:
        if missing(rep, d, bad):
            continue
        for tr in ("FuncMap", "TryFuncMap"):
            for r in by.get((d.mod, tr), []):
                k += 1
                n += r.get("predicates", 0)
                for b in r["bad"]:
                    rep.violation(f"{tr} header: {first_line(d)} {r['index']}", f"{r['header']}, derived for `{first_line(d)}`: {b}", "funcmap_derive/src/derive.rs", {"definition": d.text, "record": r})
                for c in r["extra"]:
                    rep.violation(f"{tr} extra: {first_line(d)} {r['index']} {c}", f"{r['header']}, derived for `{first_line(d)}`, demands `{c}`, which neither the definition nor mapping its fields needs", "funcmap_derive/src/derive.rs", {"definition": d.text, "record": r})
    rep.coverage = {
        "explanation": f"{len(defs)} definitions with bounds (inline and where clauses, on mapped and other parameters, on compound types, higher-ranked, associated types, lifetimes, consts, Self, ?Sized) are derived by the current macro. Each must type-check, which fails if a bound of the definition is missing for source or target (the types would not be well-formed). Each predicate of each impl must be provable by rustc's trait solver from the definition's predicates instantiated for source and target, sizedness of the fields and the mapping predicates of the nested types that contain the parameter.",
        "programs": len(defs),
        "impls": k,
        "obligations": n,
        "samples": samples(defs),
    }
    rep.assumptions = ["rustc's type checker and trait solver", TRUST[2]]
    return rep.finish()


CHECKS = {
    "C11": lambda: bodies("C11", "FuncMap"),
    "C12": lambda: bodies("C12", "TryFuncMap"),
    "C13": c13,
    "C14": c14,
}
