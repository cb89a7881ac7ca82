"""C04, C05, C07, C08: impl headers, the marker trait and the crate graph, read off the type-checked program."""
import json
import os
import re

from .common import Broken, CACHE, REPO, Report, TIERS, analyse, env, harness, put, sh

# what the documentation and the sources list as supported: (type constructor, parameter index)
SUPPORTED = {
    "core": """array 0, std::ops::Bound 0, std::cell::Cell 0, std::ops::ControlFlow 0, std::ops::ControlFlow 1,
        std::option::Option 0, std::option::IntoIter 0, std::marker::PhantomData 0, std::task::Poll 0, std::ops::Range 0,
        std::ops::RangeFrom 0, std::ops::RangeInclusive 0, std::ops::RangeTo 0, std::ops::RangeToInclusive 0,
        std::cell::RefCell 0, std::result::Result 0, std::result::Result 1, std::result::IntoIter 0, std::cell::UnsafeCell 0""",
    "alloc": """std::collections::BinaryHeap 0, std::collections::binary_heap::IntoIter 0, std::boxed::Box 0,
        std::collections::BTreeMap 0, std::collections::BTreeMap 1, std::collections::btree_map::IntoIter 0,
        std::collections::btree_map::IntoIter 1, std::collections::BTreeSet 0, std::collections::btree_set::IntoIter 0,
        std::collections::LinkedList 0, std::collections::linked_list::IntoIter 0, std::vec::Vec 0, std::vec::IntoIter 0,
        std::collections::VecDeque 0, std::collections::vec_deque::IntoIter 0""",
    "std": """std::collections::HashMap 0, std::collections::HashMap 1, std::collections::hash_map::IntoIter 0,
        std::collections::hash_map::IntoIter 1, std::collections::HashSet 0, std::collections::hash_set::IntoIter 0""",
}
ORDER = ["core", "alloc", "std"]
LINKED = {"core": {"core", "compiler_builtins"}, "alloc": {"core", "compiler_builtins", "alloc"}}


MODES = [(t, True) for t in ORDER] + [("std", False)]


def norm(head):
    """rustc prints core/alloc paths under whichever of the facade crates is in scope"""
    for p in ("core::", "alloc::"):
        if head.startswith(p):
            head = "std::" + head[len(p):]
    return {"std::collections::hash::map::HashMap": "std::collections::HashMap"}.get(head, head)


def supported(tier):
    r = set()
    for t in ORDER[: ORDER.index(tier) + 1]:
        for x in SUPPORTED[t].split(","):
            h, i = x.split()
            r.add((h, int(i)))
    return r


def label(h, i):
    return f"{h} (parameter {i})"


def impls(recs):
    return [r for r in recs if r["kind"] == "impl"]


def c04():
    rep = Report("C04", "other")
    names = []
    for tier, on in MODES:
        recs = impls(analyse(tier, checked=on))
        if not recs and tier == "std":
            raise Broken("no impls found")  # a smaller tier without impls is for C08 to report
        by = {"FuncMap": {}, "TryFuncMap": {}}
        for r in recs:
            h = norm(r["head"])
            names.append(f"{tier}: {r['header']}")
            if r["bad"]:
                rep.violation(f"{r['trait']} {h} {r['index']}: {shape(r)} [{len(r['bad'])}]", f"{r['header']}: {'; '.join(r['bad'])}", r["at"], r)
            by[r["trait"]].setdefault((h, r["index"]), []).append(r)
        for tr, other in (("FuncMap", "TryFuncMap"), ("TryFuncMap", "FuncMap")):
            for k, rs in by[tr].items():
                if k not in by[other]:
                    rep.violation(f"{tr} only: {k}", f"{label(*k)} has {tr} but not {other}", rs[0]["at"], rs[0])
                else:
                    a, b = rs[0], by[other][k][0]
                    if shape(a) != shape(b):
                        rep.violation(f"output {k}", f"{label(*k)}: {tr} and {other} differ: {a['header']} -> {a['out']}, {b['header']} -> {b['out']}", a["at"], [a, b])
            for k in sorted(supported(tier) - set(by[tr])):
                rep.violation(f"missing {tr} {k}", f"{label(*k)} has no {tr} impl in tier {tier}", f"{REPO}/funcmap/src/lib.rs", {"tier": tier})
    rep.coverage = {
        "explanation": "For every FuncMap/TryFuncMap impl of the type-checked crate, in every tier: source and target are two distinct type parameters, the marker is one concrete index N, argument N (types and consts, lifetimes not counted) of the self type is the source, and the output is the same constructor with the same arguments except the target at N, where no other argument mentions source or target. The (type, index) sets of the two traits must be equal and contain the list of supported types.",
        "obligations": len(names),
        "functions": names,
        "samples": names[:3],
    }
    rep.assumptions = ["rustc's type checker (nightly)", "the list of supported types was read off the sources and documentation of the pinned commit"]
    return rep.finish()


def shape(r):
    """self type and output, parameters numbered, facade crates normalised"""
    return re.sub(r"\b(core|alloc)::(?!alloc::|Global)", "std::", r["shape"]).replace("alloc::alloc::", "std::alloc::")


def demands(r):
    """traits and lifetimes demanded beyond what the output takes, whatever the parameters are called"""
    return sorted(re.sub(r"\b(core|alloc)::", "std::", x.split(": ", 1)[-1]) for x in r["extra"])


def c05():
    rep = Report("C05", "other")
    names = []
    for tier, on in MODES:
        recs = analyse(tier, checked=on)
        for r in recs:
            if r["kind"] not in ("impl", "trait"):
                continue
            who = r["header"] if r["kind"] == "impl" else r["trait"]
            names.append(f"{tier}: {who}")
            for b in r["extra"]:
                rep.violation(f"{r['trait']} {norm(r.get('head', ''))} {r.get('index')}: {b}", f"{who} demands {b}, which building the output does not need", r["at"], r)
    if not names:
        raise Broken("no impls found")
    rep.coverage = {
        "explanation": "For every impl, every predicate of the impl must be provable (rustc's trait solver) from: Sized for the type parameters, Ord for the key of an ordered output, Eq + Hash for the key of a hashed output; every argument of the self type other than the mapped one is a distinct parameter. The trait declarations and their methods may demand nothing but Sized, the marker bound and F: FnMut(A) -> B (or -> Result<B, E>), so an impl cannot demand more per call.",
        "obligations": len(names),
        "functions": names,
        "samples": names[:3],
    }
    rep.assumptions = ["rustc's trait solver (nightly)", "what each std container needs in order to be built (Ord / Eq + Hash on the key) as listed in the explanation"]
    return rep.finish()


def c07():
    rep = Report("C07", "other")
    names = []
    for tier, on in MODES:
        for r in analyse(tier, checked=on):
            if r["kind"] == "marker":
                names += [f"{tier}: {x}" for x in r["impls"]]
                for b in r["bad"]:
                    rep.violation(f"{b.rsplit(' (', 1)[0]}", b, b.rsplit("(", 1)[-1].rstrip(")"), r)
            elif r["kind"] == "trait":
                names.append(f"{tier}: {r['trait']}")
                if r["default_index"] != 0:
                    rep.violation(f"default {r['trait']}", f"the default marker of {r['trait']} is not index 0", r["at"], r)
                if r["over_methods_bound"] < r["over_methods"] or not r["over_methods"]:
                    rep.violation(f"over {r['trait']}", f"a *_over method of {r['trait']} does not tie its explicit marker to the implementation's", r["at"], r)
            elif r["kind"] == "impl" and r["index"] < 0:
                rep.violation(f"impl {r['header']}", f"{r['header']} is not for one specific index", r["at"], r)
    if not names:
        raise Broken("marker trait not found")
    rep.coverage = {
        "explanation": "The trait bounding the marker parameter of both traits must have, among itself and its supertraits, one trait of the crate that is not reachable from outside at any visibility level; every impl of it must be for a local marker type that stands for itself (type arguments equal the self type), for every index, on a type without inhabitants. The traits' default marker is index 0, every *_over method requires its marker argument to be tied to the implementation's marker, and every impl names one concrete index.",
        "obligations": len(names),
        "functions": names,
        "samples": names[:3],
    }
    rep.assumptions = ["rustc's effective-visibility and inhabitedness analyses (nightly)"]
    return rep.finish()


# what else a predicate of `cfg` names is looked at in one form only
PLATFORM = re.compile(r"\b(?!(?:all|any|not|feature|test|debug_assertions|doc|docsrs|doctest|true|false|clippy|rustfmt)\b)([A-Za-z_]\w*)\b")


def code_only(text):
    """Rust source with comments, strings and characters blanked out (line numbers kept)"""
    out, i, n = [], 0, len(text)
    while i < n:
        m = re.compile(r'//[^\n]*|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\[^\n]{1,12}?|[^\\\'\n])\'', re.S).match(text, i)
        if m and not (m.group(0)[0] in "br" and i and (text[i - 1].isalnum() or text[i - 1] == "_")):
            out.append(re.sub(r"[^\n]", " ", m.group(0)))
            i = m.end()
        elif text.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if text.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif text.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            out.append(re.sub(r"[^\n]", " ", text[i:j]))
            i = j
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


def sources(*dirs):
    for d in dirs:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                if f.endswith(".rs"):
                    p = os.path.join(root, f)
                    yield os.path.relpath(p, REPO), code_only(open(p).read())


def platform(rep):
    """what is compiled must not depend on the target and the like"""
    n = 0
    for p, code in sources("funcmap/src", "funcmap_derive/src"):
        for m in re.finditer(r"\bcfg(_attr)?\s*(!\s*)?([(\[{])", code):
            n += 1
            i, depth = m.end(), 1
            while i < len(code) and depth:
                depth += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(code[i], 0)
                # the predicate of `cfg_attr` is its first argument
                if m.group(1) and depth == 1 and code[i] == ",":
                    break
                i += 1
            x = PLATFORM.search(code, m.end(), i)
            if x:
                at = f"{p}:{code.count(chr(10), 0, x.start()) + 1}"
                rep.violation(f"{p} {x.group(1)} {' '.join(code[m.start():i].split())}", f"what is compiled depends on `{x.group(1)}`: the code for its other values is not analysed", at, {"at": at})
    return n


def build_tier(feats):
    """cargo check on the project's own toolchain; returns (ok, first error)"""
    t = os.path.join(CACHE, "t-stable")
    cmd = ["cargo", "check", "--offline", "--quiet", "--message-format=json", "--manifest-path", harness() + "/Cargo.toml", "--target-dir", t]
    if feats is not None:
        cmd += ["--no-default-features", "--features", ",".join(feats)]
    from .common import forget, project_toolchain

    forget(t, ("funcmap",))
    p = sh(cmd, env=env(RUSTUP_TOOLCHAIN=project_toolchain()))
    if not p.returncode:
        return None
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            sp = next((s for s in m["message"]["spans"] if s["is_primary"]), None)
            at = f"{sp['file_name']}:{sp['line_start']}" if sp else "funcmap/src/lib.rs"
            return m["message"]["message"], at, m["message"]["rendered"]
    return p.stderr.strip()[-500:] or "cargo check fails", "funcmap/Cargo.toml", p.stderr[-4000:]


def c08():
    rep = Report("C08", "other")
    names = []
    for tier in ORDER:
        e = build_tier(TIERS[tier])
        names.append(f"cargo check, features {TIERS[tier]}")
        if e:
            rep.violation(f"build {tier}", f"funcmap does not compile with features {TIERS[tier]}: {e[0]}", e[1], e[2])
    if rep.bad:
        rep.coverage = {"explanation": "a tier does not compile; nothing further analysed", "obligations": len(names)}
        return rep.finish()
    sets, status = {t: {} for t in ORDER}, {}
    for tier in ORDER:
        recs = analyse(tier)
        for r in recs:
            if r["kind"] == "crate":
                names.append(f"{tier}: links {', '.join(r['crates'])}")
                if tier in LINKED:
                    for c in sorted(set(r["crates"]) - LINKED[tier]):
                        rep.violation(f"{tier} links {c}", f"without {'std' if tier == 'alloc' else 'std and alloc'} the crate links {c}", r["at"], r)
                    if not r["no_std"]:
                        rep.violation(f"{tier} no_std", f"tier {tier} is not #![no_std]", r["at"], r)
            elif r["kind"] == "impl":
                k = (r["trait"], norm(r["head"]), r["index"])
                sets[tier][k] = r
                names.append(f"{tier}: {r['header']}")
            elif r["kind"] == "fn":
                status.setdefault(r["fn"].replace("core::", "std::").replace("alloc::", "std::") + " " + r["aspect"], {})[tier] = r
    # the same in a build without debug assertions
    off = {}
    for r in analyse("std", checked=False):
        if r["kind"] == "impl":
            off[(r["trait"], norm(r["head"]), r["index"])] = r
        elif r["kind"] == "fn":
            status.setdefault(r["fn"].replace("core::", "std::").replace("alloc::", "std::") + " " + r["aspect"], {})["std, debug assertions off"] = r
    for a, b, how in ((sets["std"], off, "without"), (off, sets["std"], "with")):
        for k in sorted(set(a) - set(b)):
            rep.violation(f"{k} {how} debug assertions", f"{a[k]['header']} is missing in a build {how} debug assertions", a[k]["at"], a[k])
    home = {"core": {"core"}, "alloc": {"core", "alloc"}, "std": {"core", "alloc", "std"}}
    for i, tier in enumerate(ORDER):
        for k, r in sets[tier].items():
            want = next(t for t in ORDER if r["crate"] in home[t]) if r["crate"] in home["std"] else None
            if want is None:
                continue
            for j, t in enumerate(ORDER):
                if j >= ORDER.index(want) and k not in sets[t]:
                    rep.violation(f"{k} not in {t}", f"{r['header']} (a type of crate {r['crate']}) is missing in tier {t}", r["at"], r)
            # same header in every tier that has it
            for t in ORDER[i + 1:]:
                if k in sets[t] and shape(sets[t][k]) != shape(r):
                    rep.violation(f"{k} differs", f"{r['header']} differs between tiers {tier} and {t}: {shape(r)} vs {shape(sets[t][k])}", r["at"], [r, sets[t][k]])
                if k in sets[t] and demands(sets[t][k]) != demands(r):
                    a, b = (r, tier), (sets[t][k], t)
                    x = a if len(demands(r)) > len(demands(sets[t][k])) else b
                    rep.violation(f"{k} demands differ", f"{r['header']} demands {x[0]['extra']} in tier {x[1]}, but not in tier {b[1] if x is a else a[1]}", x[0]["at"], [r, sets[t][k]])
        for tr in ("FuncMap", "TryFuncMap"):
            for h, n in sorted(supported(tier)):
                if (tr, h, n) not in sets[tier]:
                    rep.violation(f"{(tr, h, n)} not in {tier}", f"{tr} for {label(h, n)} is missing in tier {tier}", f"{REPO}/funcmap/src/lib.rs", {"tier": tier})
    for f, per in sorted(status.items()):
        st = {t: (r["status"]) for t, r in per.items()}
        if len(set(st.values())) > 1:
            r = next(r for r in per.values() if r["status"] != "ok")
            rep.violation(f"{f} behaves differently", f"{r['fn']} behaves differently between tiers: {st}: {r['msg']}", r["at"], r)
    names += derive_without_std(rep)
    names += [f"{platform(rep)} cfg predicates without the target"]
    rep.coverage = {
        "explanation": "Each tier is type-checked by the project's own toolchain. In the core and alloc tiers the crate graph loaded by rustc must be core (and alloc) only. Every impl for a type of core is present in all tiers, of alloc in alloc and std, with the same header and output and the same verdict of the behavioural analyses (C01-C03, C06, C09); every supported type is present in its tier. A #![no_std] crate deriving both traits over nested types must type-check against the core and alloc tiers, with the generated code linking nothing else.",
        "obligations": len(names),
        "functions": names,
        "samples": names[:3],
    }
    rep.assumptions = ["cargo's feature resolution", "rustc's crate loader"]
    return rep.finish()


NOSTD = {
    "core": """
mod a { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct D<T>(pub T, pub Option<T>, pub [T; 3], pub (T, u8), pub core::cell::Cell<T>); }
mod b { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub enum D<'a, T: Clone, U: PartialEq<T>, const N: usize> where [T; N]: Clone { A { x: Result<T, U>, y: &'a str }, B([U; N], core::marker::PhantomData<T>), C } }
mod c { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] #[funcmap(params(T))] pub struct D<T, U: ?Sized>(pub core::ops::Range<T>, pub core::task::Poll<Option<T>>, pub core::marker::PhantomData<U>); }
mod d { pub struct Own<X>(pub X); #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct D<T>(pub T, pub Own<T>, pub core::cell::RefCell<Own<T>>, pub core::ops::ControlFlow<T, T>); }
mod e { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct D<T>(pub super::a::D<T>, pub super::c::D<T, u8>); }
""",
    "alloc": """
extern crate alloc;
mod f { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct D<T>(pub alloc::vec::Vec<T>, pub alloc::boxed::Box<Option<T>>, pub alloc::string::String, pub alloc::collections::VecDeque<[T; 2]>); }
mod g { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub enum D<T, U> { A(alloc::collections::BTreeMap<u8, T>), B { x: alloc::collections::LinkedList<U>, y: alloc::rc::Rc<u8> } } }
""",
}


def derive_without_std(rep):
    """the derives in crates without std"""
    from . import wit

    names = []
    for tier, feats in (("core", ()), ("alloc", ("alloc",))):
        body = NOSTD["core"] + (NOSTD["alloc"] if tier == "alloc" else "")
        n = body.count("derive(")
        if tier == "alloc":
            body = re.sub(r"mod (\w) \{ ", r"mod \1 { extern crate alloc; ", body).replace("\nextern crate alloc;\n", "\n")
        name = f"fv_wit_nostd_{tier}"
        path = os.path.join(CACHE, "wit-src", name + ".rs")
        put(path, "#![no_std]\n#![allow(warnings)]\n" + body)
        ok, diags, recs = wit.compile("nightly", path, name, feats=feats, analyse=True)
        if not ok:
            e = next((d for d in diags if d["level"].startswith("error")), {"message": "?"})
            rep.violation(f"derive {tier}", f"in a #![no_std] crate with funcmap's features {list(feats)}, the derived impls do not compile: {e['message']}", "funcmap_derive/src/derive.rs", {"source": path, "error": e.get("rendered")})
            continue
        got = [r for r in recs if r["kind"] == "dimpl"]
        names += [f"{tier}, derived without std: {r['header']}" for r in got]
        for t in ("FuncMap", "TryFuncMap"):
            if len([r for r in got if r["trait"] == t]) < n:
                rep.violation(f"derive {tier} {t}", f"in a #![no_std] crate with funcmap's features {list(feats)}, some impls of {t} are missing", "funcmap_derive/src/derive.rs", {"impls": [r["header"] for r in got]})
        for r in got:
            for x in r["bad"] + ([] if r["status"] == "ok" else [r["msg"]]):
                rep.violation(f"derive {tier} {r['header']}", f"{r['header']}, derived in a #![no_std] crate: {x}", "funcmap_derive/src/derive.rs", r)
        linked = next((set(r["crates"]) for r in recs if r["kind"] == "dcrate"), None)
        if linked is None:
            raise Broken("no crate list of the witness crate")
        for c in sorted(linked - LINKED[tier] - {"funcmap", "funcmap_derive"}):
            rep.violation(f"derive {tier} links {c}", f"a #![no_std] crate that derives with funcmap's features {list(feats)} links {c}", "funcmap/src/lib.rs", {"linked": sorted(linked)})
    return names


CHECKS = {"C04": c04, "C05": c05, "C07": c07, "C08": c08}
