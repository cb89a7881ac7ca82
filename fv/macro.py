"""Rules about the code of the macro crate itself (C20, C21, and the error rule of C19)."""
from . import common, gen, hygiene, reject, wit
from .common import Broken, Report, project_toolchain
from .derive import seed, tier
from .reject import Rej, plain

_recs = {}


def records():
    if common.off not in _recs:
        r = []
        # the macro crate has no features, but it is compiled anew in each tier
        for t in ("std",):
            r += common.analyse(t, ("funcmap_derive",))
        if not any(x["kind"] == "mac" for x in r):
            raise Broken("the macro crate was not analysed")
        _recs[common.off] = r
    return _recs[common.off]


def obligations(rep):
    """reports the violated ones; returns all"""
    obs = [r for r in records() if r["kind"] == "ob" and r["prop"] == rep.prop]
    n = {}
    for o in obs:
        if o["status"] == "ok":
            continue
        k = f"{o['fn']} {o['what']}"
        n[k] = n.get(k, 0) + 1
        key = k if n[k] == 1 else f"{k} #{n[k]}"
        rep.violation(key, f"`{o['fn']}`, {o['what']}: {o['why']}", rel(o["at"]), o)
    return obs


def rel(at):
    return at[len(common.REPO) :].lstrip("/") if at.startswith(common.REPO) else at


def show(obs, n=12):
    return [f"{rel(o['at'])} {o['fn']}: {o['what']}: {o['why']}" for o in obs[:: max(1, len(obs) // n)]][:n]


def count(kind, key):
    return next((r[key] for r in records() if r["kind"] == kind), 0)


NAMES = "r#type r#fn r#Self_ _x __ ä É 名 field_0 self_ f value A B E F Z Output r#match r#dyn r#async r#try union auto raw".split()
TYPES = """T (T) ((T)) Option<T> _ ! impl~Tr dyn~Tr1<T> [T] [T;~{~3~+~1~}] [T;~N!()] fn(T)~->~T for<'x>~fn(&'x~T)~->~&'x~T Self Self::X <T~as~As>::X T::X std::vec::Vec::<T>
ty!(T) Vec<ty!(T)> [ty!(u8);~2] (T,) () &'static~T *const~T Box<dyn~Fn(T)~->~T~+~Send> <T> <u8~as~As>::X crate::sup::Tr ::std::vec::Vec<T> r#T Vec<r#T> Option<Option<Option<Option<Option<Option<Option<T>>>>>>>
Box<dyn~for<'x>~Fn(&'x~T)> [[T;~2];~3] (u8,~(T,~(T,~T))) Vec<{~3~}> S2<T,~{~3~}> L1<'static,~T> Vec<T,> Vec<> Option<<T~as~As>::X> [u8;~{~struct~Q<T>(T);~3~}] dyn~Tr~+~'static unsafe~fn() extern~"C"~fn(...)""".replace("\n", " ")
ATTRS = ['#[funcmap]', '#[funcmap()]', '#[funcmap = "x"]', '#[funcmap(crate)]', '#[funcmap(crate = "")]', '#[funcmap(crate = 3)]', '#[funcmap(crate = "::")]', '#[funcmap(crate = "1")]', '#[funcmap(crate = "\'")]', '#[funcmap(crate = "\\"")]', '#[funcmap(crate = "/*")]', '#[funcmap(crate = "r#")]',
         '#[funcmap(crate = "é")]', '#[funcmap(crate = b"a")]', '#[funcmap(crate = r"funcmap")]', '#[funcmap(crate = concat!("a"))]', '#[funcmap(params)]', "#[funcmap(params())]", "#[funcmap(params(T,))]", "#[funcmap(params('static))]", "#[funcmap(params(3))]", "#[funcmap(params(T T))]", "#[funcmap(params[T])]", "#[funcmap(params(r#T))]", "#[funcmap(params(_))]",
         '#[funcmap{params(T)}]', '#[funcmap[params(T)]]', '#[funcmap(,)]', '#[funcmap(params(T); crate = "a")]', '#[funcmap("x")]', '#[funcmap(x = 3)]', '#[funcmap(params = T)]', '#[r#funcmap(params(T))]', '#[funcmap(params(self))]', '#[funcmap(params(crate))]', "#[funcmap(params('a))]", "#[funcmap(params(\"T\"))]"]


def odd(thorough):
    out = []
    for n in NAMES:
        out += [f"@D@ pub struct D<T> {{ {n}: T }}", f"@D@ pub enum D<T> {{ {n} {{ {n}: T }} }}", f"@D@ pub struct {n}<T>(T);", f"@D@ pub struct D<{n}>({n});", f"@D@ pub struct D<T, const {n}: usize>([T; {n}]);", f"@D@ #[funcmap(params({n}))] pub struct D<{n}>({n});"]
    for t in TYPES.split():
        t = t.replace("~", " ")
        out += [f"@D@ pub struct D<T>({t});", f"@D@ pub enum D<T> {{ A {{ x: {t} }}, B(u8, {t}) }}", f"macro_rules! mk {{ ($t:ty) => {{ @D@ pub struct D<T>($t); }} }} mk!({t});"]
        out += [f"@D@ pub struct D<T>(T) where {t}: Clone;", f"@D@ pub struct D<T>(T, Option<({t}, T)>);"]
    for a in ATTRS:
        out += [f"@D@ {a} pub struct D<'a, T>(T, &'a u8);", f"@D@ pub struct D<T>({a} T);", f"@D@ pub enum D<T> {{ {a} A(T) }}", f"@D@ pub struct D<{a} T>(T);", f"@D@ {a} {a} pub enum D<T, U> {{ A(T), B(U) }}"]
    out += [
        "@D@ pub struct D;", "@D@ pub struct D {}", "@D@ pub struct D();", "@D@ pub enum D {}", "@D@ pub enum D<T> {}", "@D@ pub union D<T: Copy> { a: T }", "@D@ pub struct D<>(u8);", "@D@ pub struct D<'a>(&'a u8);", "@D@ pub struct D<const N: usize>([u8; N]);",
        "@D@ pub enum D<T> { A = 1, B(T) }", "@D@ #[repr(u8)] pub enum D<T> { A = 1, B(T) = { 3 } }", "@D@ pub struct D<T = u8, const N: usize = { 3 + 1 }>(T, [u8; N]);", "@D@ pub struct D<T: ?Sized>(Box<T>);", "@D@ pub struct D<T: 'static + for<'x> Fn(&'x u8) -> &'x u8>(T);",
        "@D@ pub struct D<T: ~const Tr>(T);", "@D@ pub struct D<T: const Tr>(T);", "@D@ pub struct D<T: use<>>(T);", "@D@ pub struct D<T>(T) where;", "@D@ pub struct D<T> where T: { x: T }", "@D@ pub struct D<T>(T) where for<> T: ;", "@D@ pub struct D<T>(T) where 'static: 'static, for<'x, 'y> &'x [&'y T]: Tr;",
        "@D@ pub struct D<T>(T) where Self: Sized, [T; 2]: Sized;", "@D@ pub struct D<T: Fn(u8) -> u8>(T);", "@D@ pub struct D<T, T>(T);", "@D@ pub struct D<T> { x: T, x: T }", "@D@ pub enum D<T> { A(T), A(T) }", "@D@ pub(in super) struct D<T>(pub(crate) T);", "@D@ pub struct D<T>(T) where T = u8;",
        "@D@ pub trait D<T> {}", "@D@ pub fn d<T>() {}", "@D@ pub type D<T> = T;", "@D@ pub mod d {}", "@D@ impl D {}", "@D@ pub struct D<T>(T", "@D@", "@D@ pub struct D<T>(pub T,,);", "@D@ pub struct D<T>(T) where T: Clone { }",
        "@D@ pub struct D<" + ", ".join(f"{c}" for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ") + ">(" + ", ".join("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + ");",
        "@D@ pub struct D<" + ", ".join(list("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + ["__FUNCMAP_A", "__FUNCMAP_B", "__FUNCMAP_E", "__FUNCMAP_F"]) + ">(" + ", ".join("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + ", __FUNCMAP_A, __FUNCMAP_B, __FUNCMAP_E, __FUNCMAP_F);",
    ]
    return [Rej(t) for t in out]


def c20():
    rep = Report("C20", "other")
    obs = obligations(rep)
    # the expansion of every definition at hand ends with code or errors
    defs = odd(tier()) + reject.options(tier(), seed()) + reject.multi(tier(), seed()) + [Rej("@D@ " + d.text if "@D@" not in d.text else d.text) for d in hygiene.many_defs()]
    defs += reject.unsupported(tier(), seed())
    defs = reject.prepare(defs)
    tc = project_toolchain()
    wit.artifacts(tc)
    sentinel = Rej("@D@ pub struct D;")
    sentinel.mod = "sentinel"
    todo, n, lost = [defs[i : i + 120] for i in range(0, len(defs), 120)], 0, 0
    serial = 0
    while todo:
        jobs = []
        for c in todo:
            serial += 1
            jobs.append(("c20", serial, c + [sentinel], reject_derive(), tc, "2021"))
        nxt = []
        for c, (ok, per, info, path) in zip(todo, wit.parallel(reject.run, jobs)):
            if not per["sentinel"]:
                # something in it does not even parse: nothing of it was expanded
                if len(c) == 1:
                    lost += 1
                else:
                    k = max(1, len(c) // 6)
                    nxt += [c[i : i + k] for i in range(0, len(c), k)]
                continue
            for d in c:
                n += 1
                for x in per[d.mod]:
                    if "panicked" in x["message"]:
                        rep.violation(f"expansion: {plain(d.text)}", f"a derive macro panics on `{plain(d.text)}`: {help_text(x)}", "funcmap_derive/src", {"definition": d.text, "error": x.get("rendered")})
        todo = nxt
    if lost > len(defs) // 20:
        raise Broken(f"{lost} of {len(defs)} definitions are not expanded")
    rep.coverage = {
        "explanation": f"Every call and checked operation in the {count('mac', 'fns')} functions and closures of the macro crate (its own derived impls excepted): {len(obs)} of them can panic for some arguments, and for each a rule shows that those arguments do not occur here (fixed identifiers, names made of letters and digits, guards, endless searches, counters, constants from every call site, predicates on syntax nodes). In addition {n} definitions, most of them odd, were type-checked with both derives; none may end in a panic.",
        "functions": count("mac", "fns"),
        "call_sites": count("mac", "calls"),
        "obligations": len(obs),
        "evaluations": n,
        "distinct_inputs": n,
        "not_parsed": lost,
        "samples": show(obs),
    }
    rep.assumptions = ["syn, quote, proc-macro2 and indexmap do not panic except in the functions and for the arguments the rule names", "the std functions that panic are those in the list of the rule", "stack overflow on deeply nested types and lack of memory are not considered"]
    return rep.finish()


def help_text(x):
    return "; ".join(c["message"] for c in x.get("children", []))[:200]


def reject_derive():
    return "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]"


def c21():
    rep = Report("C21", "proof")
    obs = obligations(rep)
    rep.coverage = {
        "explanation": f"Every call, cast and static of the macro crate ({count('mac', 'fns')} functions and closures, {count('det', 'calls')} calls): none reads the environment, the time, a random seed, an address or a source position, none keeps state from one expansion to the next, and no hash table with a random seed is visited in its order (only looked up by key, or visited by consumers to which the order does not matter).",
        "functions": count("mac", "fns"),
        "call_sites": count("det", "calls"),
        "obligations": count("det", "calls"),
        "discharged": count("det", "calls") - len([o for o in obs if o["status"] != "ok"]),
        "samples": show(obs),
    }
    rep.assumptions = ["syn, quote, proc-macro2 and indexmap are deterministic functions of their arguments", "the derives the macro crate uses on its own types are rustc's"]
    return rep.finish()


def c25():
    rep = Report("C25", "proof")
    obs = obligations(rep)
    if not count("term", "loops"):
        raise Broken("no loop was found in the macro crate")
    rep.coverage = {
        "explanation": f"Every cycle of the call graph of the macro crate ({count('mac', 'fns')} functions and closures, {count('term', 'edges')} calls and closures within it, the callbacks of syn's walks included) descends into a proper part of the syntax it was given, by the size-change principle; every loop ({count('term', 'loops')}) takes the elements of a finite sequence that it does not add to, counts up to a bound, or descends; and every search over an endless sequence ({count('term', 'searches')}) goes through candidates that never repeat for good and stops at the first that is not taken.",
        "functions": count("mac", "fns"),
        "call_sites": count("mac", "calls"),
        "recursive_groups": count("term", "groups"),
        "loops": count("term", "loops"),
        "searches": count("term", "searches"),
        "obligations": len(obs),
        "discharged": len([o for o in obs if o["status"] == "ok"]),
        "samples": show(obs),
    }
    rep.assumptions = ["syn, quote, proc-macro2, indexmap and std return from every call, and syn's visitors hand on proper parts of a node only", "an iterator of the macro crate's dependencies or of std is finite unless its type says otherwise (ranges without end, repeat, cycle)", "a sequence of candidates within a round of an endless search is not empty"]
    return rep.finish()


CHECKS = {"C20": c20, "C21": c21, "C25": c25}
