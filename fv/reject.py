"""Definitions the derive has to reject (C17, C18, C19)."""
import os
import random
import re

from . import gen, wit
from .common import CACHE, Broken, Report, env, project_toolchain, put, sh, sysroot
from .derive import first_line, samples, seed, tier

SRC = "funcmap_derive/src/derive.rs"


class Rej:
    """Definition; « » enclose the pieces that errors have to point at, in order."""

    def __init__(self, text, exact=True, note="", order=None, free=False):
        self.text = text
        self.exact = exact  # the error points at exactly the piece, else at something inside it
        self.note = note
        self.order = order  # order of the errors if it is not the order of the pieces
        self.free = free  # errors beside the expected ones are rustc's own
        self.mod = None


def plain(t):
    return " ".join(t.replace("«", "").replace("»", "").replace("@D@", "").split())[:300]


USES = gen.USES + "    macro_rules! ty { ($($t:tt)*) => { $($t)* } }\n"


def crate(defs, derive):
    """source, and per definition its line range and the byte ranges of its pieces"""
    text = gen.HEAD + gen.SUP
    info = {}
    line = text.count("\n") + 1
    pos = len(text.encode())
    out = [text]
    for d in defs:
        body = f"mod {d.mod} {{\n{USES}    {d.text.replace('@D@', derive)}\n}}\n"
        k = body.count("\n")
        pieces = []
        clean = b""
        stack = []
        for part in re.split("([«»])", body):
            if part == "«":
                stack.append(len(pieces))
                pieces.append([pos + len(clean), None])
            elif part == "»":
                pieces[stack.pop()][1] = pos + len(clean)
            else:
                clean += part.encode()
        info[d.mod] = (line, line + k - 1, [tuple(p) for p in pieces])
        out.append(clean.decode())
        line += k
        pos += len(clean)
    return "".join(out), info


def primary(diag):
    for s in diag.get("spans", []):
        if s["is_primary"]:
            return s
    return None


def lines_of(diag):
    s = primary(diag)
    if not s:
        for c in diag.get("children", []):
            for x in c.get("spans", []):
                return wit.outer(x)["line_start"]
        return None
    return wit.outer(s)["line_start"]


def run(args):
    tag, k, defs, derive, tc, *ed = args
    name = f"fv_rej_{tag}_{k}"
    src, info = crate(defs, derive)
    path = os.path.join(CACHE, "wit-src", name + ".rs")
    put(path, src)
    ok, diags, _ = wit.compile(tc, path, name, edition=ed[0] if ed else "2021")
    per = {d.mod: [] for d in defs}
    for x in diags:
        if not x["level"].startswith("error"):
            continue
        l = lines_of(x)
        for d in defs:
            a, b, _ = info[d.mod]
            if l is not None and a <= l <= b:
                per[d.mod].append(x)
    return ok, per, info, path


def chunks(tag, defs, derive, tc, n=150, ed="2021"):
    return [(f"{tag}", i // n, defs[i : i + n], derive, tc, ed) for i in range(0, len(defs), n)]


def prepare(defs):
    for i, d in enumerate(defs):
        d.mod = f"m{i}"
    seen = {}
    for d in defs:
        seen.setdefault(d.text, d)
    return list(seen.values())


def judge(rep, defs, what, ed="2021"):
    """errors of the macro must be exactly the expected ones"""
    tc = project_toolchain()
    wit.artifacts(tc)
    n = 0
    for tr in ("FuncMap", "TryFuncMap"):
        for ok, per, info, path in wit.parallel(run, chunks(f"{rep.prop.lower()}_{tr}_{ed}", defs, f"#[derive(funcmap::{tr})]", tc, ed=ed)):
            for d in defs:
                if d.mod not in per:
                    continue
                n += 1
                pieces = info[d.mod][2]
                order = d.order or range(len(pieces))
                want = [pieces[i] for i in order]
                errs = per[d.mod]
                # `code` is set for rustc's own errors
                mac = [x for x in errs if x["code"] is None and not x["message"].startswith("aborting")]
                for x in errs:
                    if "panicked" in x["message"]:
                        rep.violation(f"panic {tr}: {plain(d.text)}", f"derive({tr}) panics on `{plain(d.text)}`", SRC, {"definition": d.text, "error": x.get("rendered")})
                got = []
                for x in mac:
                    s = primary(x)
                    got.append((s["byte_start"], s["byte_end"], x) if s else (-1, -1, x))
                def fits(g, w):
                    return g[:2] == w if d.exact else (w[0] <= g[0] and g[1] <= w[1])

                problem = None
                if not mac:
                    problem = "is accepted" if not errs else "is not rejected by the macro"
                else:
                    left = list(range(len(got)))
                    at = []
                    for w in want:
                        i = next((i for i in left if fits(got[i], w)), None)
                        if i is None:
                            text = open(path, "rb").read()[w[0] : w[1]].decode()
                            problem = f"has no error pointing at `{text}`"
                            if left:
                                x = got[left[0]][2]
                                problem += f" but one pointing at `{x['spans'][0]['text'][0]['text'].strip()[:80] if x['spans'] and x['spans'][0]['text'] else '?'}` ({x['message']})"
                            break
                        left.remove(i)
                        at.append(i)
                    else:
                        if left and not d.free:
                            problem = f"also reports `{got[left[0]][2]['message']}`"
                        elif at != sorted(at):
                            problem = "reports its errors out of order"
                if problem:
                    rep.violation(f"{tr} {problem[:20]}: {plain(d.text)}", f"derive({tr}) on `{plain(d.text)}`: {problem}", SRC, {"definition": d.text, "expected": want, "errors": [x.get("rendered") for x in errs]})
    return n


# ---------------------------------------------------------------------- C18

BAD = """fn(@) fn()~->~@ unsafe~extern~"C"~fn(u8,~@) for<'x>~fn(&'x~@)~->~&'x~@ *const~@ *mut~@ &'a~@ &'static~@ &'a~mut~@ [@] dyn~Tr1<@>
dyn~Tr1<@>~+~'a dyn~Fn(@)~->~u8 dyn~Iterator<Item~=~@> dyn~for<'x>~Fn(&'x~@) <@~as~As>::X <Vec<@>~as~As>::X <u8~as~Tr1<@>>::X <Option<u8>~as~Tr1<Vec<@>>>::X::Y
S1<@>::X S1::<@>::X::Y<u8> impl~Tr1<@>""".split()
BADT = ["T::X", "T::X::Y", "T::X<u8>", "T::X<T>", "<T>::X", "<T as As>::X<T>"]  # the parameter itself only
CTX = """@ (@) Option<@> Vec<@> (u8,~@) (@,) (T,~@,~u8) [@;~2] Box<@> Result<u8,~@> Result<@,~T> S2<T,~@> S2<@,~T> K1<@,~3> L1<'a,~@> KK<'a,~2,~u8,~true,~@>
PhantomData<@> ::std::vec::Vec<@> crate::sup::S1<@> BTreeMap<u8,~@> ((@)) S1<T,>|@""".split()


def unsupported(thorough, sd):
    rnd = random.Random(sd)
    bads = [gen.ty(gen.fill(b, *[x] * gen.holes(b))) for b in BAD for x in (("T", "Option<T>", "(u8, T)") if thorough else ("T", "Option<T>"))] + BADT
    ctxs = [c for c in CTX if "|" not in c]
    types = []
    for b in bads:
        p = f"«{b}»"
        q = f"«{b}»" if not b.startswith("dyn") and not b.startswith("impl") else f"«{b}»"
        for c in ctxs:
            types.append(gen.ty(gen.fill(c, p)))
        for _ in range(len(ctxs) * (6 if thorough else 2)):
            c = gen.fill(rnd.choice(ctxs), gen.fill(rnd.choice(ctxs), rnd.choice(ctxs)))
            types.append(gen.ty(gen.fill(c, q)))
    out = []
    for i, t in enumerate(types):
        amb = re.search(r"[&*] ?('a |'static )?(mut |const )?«(dyn|impl)[^»]*\+", t)
        if amb:
            continue
        forms = [
            f"@D@ pub struct D<'a, T>({t});",
            f"@D@ pub struct D<'a, T> {{ x: {t} }}",
            f"@D@ pub struct D<'a, T>(T, u8, Vec<T>, {t}, &'a u8);",
            f"@D@ pub struct D<'a, T> {{ a: T, f: Option<T>, x: {t}, z: &'a u8 }}",
            f"@D@ pub enum D<'a, T> {{ A, B(T, {t}), C(&'a u8) }}",
            f"@D@ pub enum D<'a, T> {{ A(T), B {{ x: T, y: {t} }} }}",
            f"@D@ #[funcmap(params(T))] pub struct D<'a, T, U: 'a, const N: usize>(U, T, {t}, [U; N]);",
            f"@D@ pub struct D<'a, U, T>(U, {t}) where T: Clone, U: 'a;",
            f"@D@ #[funcmap(params(T), crate = \"::funcmap\")] pub enum D<'a, const N: usize, T> {{ A {{ a: &'a [u8; N], b: T }}, B {{ b: {t} }} }}",
        ]
        for f in forms if i < len(ctxs) and not thorough else rnd.sample(forms, 2 if not thorough else 4):
            out.append(Rej(f))
    # types given by macros
    for f in ("pub struct D<T>(T, «ty!(T)»);", "pub struct D<T> { a: T, b: «ty!(u8)» }", "pub enum D<T> { A(T), B { x: «ty![Option<T>]» } }"):
        out.append(Rej("@D@ " + f, free=True))
    # through declarative macros: the error lies in the macro call
    for b in bads[:20]:
        out.append(Rej(f"«macro_rules! mk {{ ($n:ident, $t:ty) => {{ @D@ pub struct $n<'a, T>(T, Option<$t>, &'a u8); }} }}\n    mk!(D, {b});»", exact=False))
    return out


def options(thorough, sd):
    rnd = random.Random(sd)
    out = []
    bad = """«#[funcmap]»|«#[funcmap = "x"]»|«#[funcmap()]»|«#[funcmap(foo)]»|«#[funcmap("params")]»|«#[funcmap(,)]»|«#[funcmap(params)]»|«#[funcmap(params())]»|«#[funcmap(params(,))]»
«#[funcmap(params(3))]»|«#[funcmap(params("T"))]»|«#[funcmap(params(T U))]»|«#[funcmap(params(T) crate = "::funcmap")]»|«#[funcmap(params = "T")]»|«#[funcmap(params[T])]»|«#[funcmap(params(T; U))]»
«#[funcmap(crate)]»|«#[funcmap(crate = 3)]»|«#[funcmap(crate = funcmap)]»|«#[funcmap(crate = "")]»|«#[funcmap(crate = "a b")]»|«#[funcmap(crate = "a::")]»|«#[funcmap(crate = "a::<")]»|«#[funcmap(crate("::funcmap"))]»
«#[funcmap(crate: "::funcmap")]»|«#[funcmap(crate = '\\'')]»|«#[funcmap(crate = "::funcmap" params(T))]»|«#[funcmap(params(T), foo)]»|«#[funcmap(params(T),, params(U))]»|«#[funcmap(params(crate))]»|«#[funcmap(params(u8::X))]»
«#[funcmap(params(&T))]»|«#[funcmap(params(T: Clone))]»|«#[funcmap(params('static))]»|«#[funcmap(crate = b"a")]»|«#[funcmap(crate = c"a")]»|«#[funcmap(crate = "3")]»|«#[funcmap(crate = "fn")]»|«#[funcmap(Params(T))]»
#[funcmap(params(T, «T»))]|#[funcmap(params(T, «r#T»))]|#[funcmap(params(r#T, «T»))]|#[funcmap(params(T), params(«r#T»))]|#[funcmap(params(r#U, T, «U»))]|#[funcmap(params(T), params(«T»))]|#[funcmap(params(T))] #[funcmap(params(«T»))]|#[funcmap(params(U, T, «U»))]
#[funcmap(params(«V»))]|#[funcmap(params(T, «V»))]|#[funcmap(params(«'a»))]|#[funcmap(params(«N»))]|#[funcmap(params(«'z»))]|#[funcmap(params(T))] #[funcmap(params(«N»))]|#[funcmap(params(T, «t»))]
#[funcmap(crate = "::funcmap", crate = «"::funcmap"»)]|#[funcmap(crate = "::funcmap")] #[funcmap(crate = «"::funcmap"»)]|#[funcmap(params(«Option»))]|#[funcmap(params(«D»))]|#[funcmap(params(«x»))]""".replace("\n", "|").split("|")
    for b in bad:
        for body in ("pub struct D<'a, T, U, const N: usize>(T, U, &'a [u8; N]);", "pub enum D<'a, T, U, const N: usize> { A(T), B { x: U }, C(&'a [u8; N]) }"):
            out.append(Rej(f"@D@ {b} {body}", exact=False))
            out.append(Rej(f"@D@ #[doc = \"x\"] {b} #[allow(unused)] {body}", exact=False))
    # misplaced
    attrs = ["#[funcmap]", "#[funcmap(params(T))]", "#[funcmap(crate = \"::funcmap\")]", "#[funcmap = 3]", "#[funcmap()]", "#[r#funcmap(params(T))]", "#[funcmap(foo bar)]", "#[cfg_attr(all(), funcmap(params(T)))]"]
    places = [
        "pub struct D<T>({} T);", "pub struct D<T>(T, {} u8);", "pub struct D<T> {{ {} x: T }}", "pub struct D<T> {{ x: T, #[allow(unused)] {} y: u8 }}",
        "pub enum D<T> {{ {} A(T) }}", "pub enum D<T> {{ A(T), {} B }}", "pub enum D<T> {{ A(T), {} B {{ x: u8 }} }}", "pub enum D<T> {{ A({} T) }}", "pub enum D<T> {{ A(T), B {{ x: u8, {} y: T }} }}",
        "pub enum D<T> {{ A(T), B(u8, {} u8) }}", "pub enum D<T> {{ A(T), {} B = 3 }}",
        "pub struct D<{} T>(T);", "pub struct D<T, {} U>(T, U);", "pub struct D<{} 'a, T>(T, &'a u8);", "pub struct D<T, {} const N: usize>([T; N]);", "pub enum D<#[allow(unused)] {} T: Clone> {{ A(T) }}",
    ]
    for p in places:
        for a in attrs:
            for extra in ("", "#[funcmap(params(T))] "):
                out.append(Rej("@D@ " + extra + p.format(f"«{a}»"), exact="cfg_attr" not in a, free=True))
    # nothing to map
    for g, body in [("", "pub struct D;"), ("", "pub struct D(u8);"), ("", "pub enum D { A }"), ("", "pub enum D {}"), ("<>", "pub struct D<>(u8);")]:
        out.append(Rej("@D@ " + (body.replace("D", "«D»", 1) if "<" not in body else body.replace("D<>", "«D»<>"))))
    for g, f in [("<'a>", "&'a u8"), ("<'a, 'b: 'a>", "&'a &'b u8"), ("<const N: usize>", "[u8; N]"), ("<'a, const N: usize>", "&'a [u8; N]"), ("<const N: usize = 3>", "[u8; N]")]:
        out.append(Rej(f"@D@ pub struct D«{g}»({f});"))
        out.append(Rej(f"@D@ pub enum D«{g}» {{ A, B({f}) }}"))
    # unions
    for u in ["pub «union» D<T: Copy> { x: T }", "#[funcmap(params(T))] «union» D<T: Copy, U: Copy> { x: T, y: U }", "pub «union» D<'a, T: Copy> { x: T, y: &'a u8 }", "pub «union» D<T> { x: std::mem::ManuallyDrop<T> }", "#[repr(C)] pub(crate) «union» D<const N: usize, T: Copy> { x: [T; N] }"]:
        out.append(Rej("@D@ " + u))
    return out


def large(many, sd):
    """errors far into a large definition; `many`: several of them"""
    rnd = random.Random(sd + 11)
    out = []
    bad = ["fn(T)", "*const T", "&'static T", "<T as As>::X", "dyn Fn(T) -> u8", "[T]", "T::X"]
    at = lambda n: sorted(rnd.sample(range(n), 12 if many else 1)) if many else [n - 1 - rnd.randrange(3)]
    for n in (40, 130):
        for _ in range(3):
            def put_(xs, f):
                for i in at(len(xs)):
                    xs[i] = f(xs[i])
                return xs
            b = lambda _: gen.ty(gen.fill(rnd.choice(["@", "Option<@>", "(u8,~@)"]), f"«{rnd.choice(bad)}»"))
            tys = put_([rnd.choice(["T", "u8", "Option<T>"]) for _ in range(n)], b)
            out.append(Rej(f"@D@ pub struct D<T>({', '.join(tys)});"))
            tys = put_([rnd.choice(["T", "u8", "Option<T>"]) for _ in range(n)], b)
            out.append(Rej(f"@D@ pub struct D<T> {{ {', '.join(f'x{i}: {t}' for i, t in enumerate(tys))} }}"))
            tys = put_(["T"] * n, b)
            out.append(Rej(f"@D@ pub enum D<T> {{ {', '.join(f'V{i}({t})' for i, t in enumerate(tys))} }}"))
            # misplaced options
            h = lambda x: "«#[funcmap(params(T))]» " + x
            out.append(Rej(f"@D@ pub struct D<T>({', '.join(put_(['T'] * n, h))});", free=not many))
            out.append(Rej(f"@D@ pub enum D<T> {{ {', '.join(put_([f'V{i}(T)' for i in range(n)], h))} }}", free=not many))
            out.append(Rej(f"@D@ pub struct D<{', '.join(put_([f'P{i}' for i in range(n)], h))}>({', '.join(f'P{i}' for i in range(n))});", free=not many))
            # options
            ps = [f"P{i}" for i in range(n)]
            sel = put_(ps[:], lambda x: "«Q" + x[1:] + "»")
            out.append(Rej(f"@D@ #[funcmap(params({', '.join(sel)}))] pub struct D<{', '.join(ps)}>({', '.join(ps)});", exact=False))
            out.append(Rej(f"@D@ {' '.join(f'#[funcmap(params({x}))]' for x in sel)} pub struct D<{', '.join(ps)}>({', '.join(ps)});", exact=False))
            if many:
                dup = rnd.sample(ps, 9)
                out.append(Rej(f"@D@ #[funcmap(params({', '.join(ps)}, {', '.join(f'«{p}»' for p in dup)}))] pub struct D<{', '.join(ps)}>({', '.join(ps)});", exact=False))
                mal = [rnd.choice(["«#[funcmap]»", "«#[funcmap(foo)]»", "«#[funcmap(params(3))]»"]) for _ in range(n // 4)]
                out.append(Rej(f"@D@ {' '.join(mal)} pub struct D<T>(T);", exact=False))
    if not many:
        for b in bad:
            for _ in range(3):
                t = f"«{b}»"
                for _ in range(rnd.randrange(9, 16)):
                    t = gen.ty(gen.fill(rnd.choice([c for c in CTX if "|" not in c]), t))
                out.append(Rej(f"@D@ pub struct D<'a, T>({t}, &'a u8);"))
    return out


OLD = [
    "pub struct D<T>(*const T, u8);", "pub enum D<T> { A(fn(T)), B(u8) }", "#[funcmap] pub struct D<T>(T);", "#[funcmap(params(U))] pub struct D<T>(T);", "pub struct D<'a>(&'a u8);", "pub union D<T: Copy> { x: T }",
    "#[funcmap(crate = \"\")] pub struct D<T>(T);", "pub struct D<T>(#[funcmap] T);",
]


def old_edition(rep):
    """in edition 2015 (where absolute paths start at the crate root)"""
    tc = project_toolchain()
    for tr in ("FuncMap", "TryFuncMap"):
        for i, t in enumerate(OLD):
            name = f"fv_rej_old_{tr}_{i}"
            path = os.path.join(CACHE, "wit-src", name + ".rs")
            put(path, f"extern crate funcmap;\n#[derive(::funcmap::{tr})]\n{t}\n")
            ok, diags, _ = wit.compile(tc, path, name, edition="2015")
            errs = [x for x in diags if x["level"].startswith("error") and not x["message"].startswith("aborting")]
            mac = [x for x in errs if x["code"] is None]
            if ok or not errs:
                rep.violation(f"2015 {tr} accepted: {t}", f"derive({tr}) accepts `{t}` in edition 2015", SRC, {"definition": t})
            elif mac:
                continue
            elif all("missing crate `core`" in x["message"] or "`core`" in x["message"] for x in errs):
                rep.violation("2015: unresolved core", "in edition 2015 the macro's error message is replaced by an unresolved `core` (at the right piece): syn's compile errors name the macro ::core::compile_error", "funcmap_derive/src/result.rs", {"definition": t, "errors": [x.get("rendered") for x in errs]})
            else:
                rep.violation(f"2015 {tr}: {t}", f"derive({tr}) on `{t}` in edition 2015 does not give an error of the macro but {errs[0]['message']}", SRC, {"definition": t, "errors": [x.get("rendered") for x in errs]})


def c18():
    rep = Report("C18", "exploration")
    defs = prepare(unsupported(tier(), seed()) + options(tier(), seed()) + large(False, seed()))
    n = judge(rep, defs, "rejected")
    if tier():
        n += judge(rep, defs, "rejected", "2018")
        n += judge(rep, defs, "rejected", "2024")
    old_edition(rep)
    rep.coverage = {
        "explanation": f"{len(defs)} definitions that must not be derivable: every unsupported position of the parameter (function, pointer, reference, slice, trait object, associated item, parenthesised arguments, macro type, impl) in every context of one level and combinations of up to three, in every kind of field; malformed, duplicate, unknown and misplaced options; no type parameter; unions. Each is compiled with each derive; the errors without an error code (the macro's) must be exactly one per marked piece, with the primary span exactly that piece (inside the attribute for malformed options).",
        "evaluations": n,
        "distinct_inputs": len(defs),
        "obligations": n,
        "samples": [plain(d.text) for d in defs[:: max(1, len(defs) // 6)]][:6],
    }
    rep.assumptions = ["rustc's parser and diagnostics", "the enumerated definitions stand for the macro's handling of definitions of that form"]
    return rep.finish()


# ---------------------------------------------------------------------- C19


def piece(rnd, n=None):
    """a piece of an option list, with the errors it has"""
    return rnd.choice(
        [
            "params(«V»)", "params(«'a»)", "params(«N»)", "params(«V», «N», T, «'z»)", "params(T, «W»)", "params(«N», «'a», «V», «x», «D»)",
        ]
    )


OPT = [  # one attribute each; the expected errors are counted per attribute
    "«#[funcmap(foo)]»", "«#[funcmap]»", "«#[funcmap = 3]»", "«#[funcmap(params(3))]»", "«#[funcmap(crate = \"\")]»", "«#[funcmap(crate = 3)]»", "«#[funcmap()]»", "«#[funcmap(params())]»",
    "#[funcmap(params(U, «U»))]", "#[funcmap(params(X1, X2, «X1», «X2», «X1»))]", "#[funcmap(crate = \"::funcmap\", crate = «\"::a\"», crate = «\"::b\"»)]", "#[funcmap(params(T))]", "#[doc = \"x\"]", "#[allow(unused)]",
]


def errors(t):
    return t.count("«")


def multi(thorough, sd):
    rnd = random.Random(sd * 7 + 3)
    out = []
    bodies = ["pub struct D<'a, T, U, const N: usize>(T, U, &'a [u8; N]);", "pub enum D<'a, T, U, const N: usize> { A(T), B { x: U }, C(&'a [u8; N]) }"]
    # errors in options: nothing else is looked at
    k = 1500 if thorough else 300
    while len(out) < k:
        at = [rnd.choice(OPT) for _ in range(rnd.randrange(2, 5))]
        if len([a for a in at if "crate = \"::f" in a]) > 1 or len([a for a in at if "X1" in a]) > 1 or len([a for a in at if "(U" in a]) > 1 or at.count("#[funcmap(params(T))]") > 1:
            continue
        if sum(map(errors, at)) < 2:
            continue
        # parameters that do not exist are only noticed if the options are well-formed
        out.append(Rej("@D@ " + " ".join(at) + " " + rnd.choice(bodies), exact=False))
    # errors in the item: parameters, helper attributes
    attr = ["#[funcmap]", "#[funcmap(params(T))]", "#[funcmap(foo)]", "#[r#funcmap]", "#[funcmap = 1]"]

    def mis():
        r = rnd.random()
        if r < 0.5:
            return ""
        if r < 0.6:
            return "#[allow(unused)] "
        if r < 0.9:
            return f"«{rnd.choice(attr)}» "
        return f"«{rnd.choice(attr)}» #[doc = \"x\"] «{rnd.choice(attr)}» "

    sel = ["", "#[funcmap(params(«V»))]", "#[funcmap(params(«'a»))]", "#[funcmap(params(«N»))]", "#[funcmap(params(«V», «N», T, «'z»))]", "#[funcmap(params(T), params(«W»))]", "#[funcmap(params(«N», «'a»))] #[funcmap(params(«V», «x», «D»))]",
           "#[funcmap(crate = \"::funcmap\", params(«V», U))]", "#[funcmap(params(T))]"]
    k = 3000 if thorough else 600
    n = 0
    while n < k:
        gens = f"<{mis()}'a, {mis()}T, {mis()}U: Clone, {mis()}const N: usize>"
        tys = ["T", "U", "Option<T>", "u8", "&'a [u8; N]"]

        def field(named, i):
            return mis() + (f"x{i}: " if named else "") + rnd.choice(tys)

        kind = rnd.randrange(4)
        if kind == 3:
            # without a type parameter
            g = rnd.choice([f"«<{mis()}'a>»", f"«<{mis()}'a, {mis()}const N: usize>»", f"«<{mis()}const N: usize, {mis()}const M: bool>»"])
            s = rnd.choice(["", "#[funcmap(params(«V»))]", "#[funcmap(params(«V», «T»))]"])
            t = f"@D@ {s} pub struct D{g}({mis()}u8, {mis()}u16);"
            # the missing type parameter is noticed after the attributes of the others
            inner = [i for i in range(errors(s) + 1, errors(s) + errors(g))]
            order = list(range(errors(s))) + inner + [errors(s)] + list(range(errors(s) + errors(g), errors(t)))
            if errors(t) < 2:
                continue
            out.append(Rej(t, order=order))
            n += 1
            continue
        if kind == 0:
            named = rnd.random() < 0.5
            fs = ", ".join(field(named, i) for i in range(rnd.randrange(1, 5)))
            body = f"pub struct D{gens} {{ {fs} }}" if named else f"pub struct D{gens}({fs});"
        else:
            vs = []
            for i in range(rnd.randrange(1, 4)):
                r = rnd.randrange(3)
                fs = ", ".join(field(r == 2, j) for j in range(rnd.randrange(1, 4)))
                vs.append(mis() + f"V{i}" + ("" if r == 0 else f"({fs})" if r == 1 else f" {{ {fs} }}"))
            body = f"pub enum D{gens} {{ {', '.join(vs)} }}"
        t = "@D@ " + rnd.choice(sel) + " " + body
        if errors(t) < 2:
            continue
        out.append(Rej(t))
        n += 1
    # with a union
    for s in sel:
        if errors(s):
            out.append(Rej(f"@D@ {s} pub «union» D<'a, T: Copy, U: Copy, const N: usize> {{ x: T, y: U, z: &'a [u8; N] }}"))
    # fields that cannot be mapped
    bads = [gen.ty(b) for b in BAD if "Y" not in b]
    ctxs = [c for c in CTX if "|" not in c]
    k = 4000 if thorough else 800
    n = 0
    while n < k:
        two = rnd.random() < 0.5
        pieces = []  # parameters on which each piece depends

        def fty():
            r = rnd.random()
            if r < 0.4:
                return rnd.choice(["T", "u8", "Vec<T>", "(T, Option<T>)"] + ["U", "(T, U)"] * two)
            b = rnd.choice(bads)
            x = rnd.choice(["T", "Option<T>"] + (["U", "(T, U)"] if two else []))
            c = rnd.choice(ctxs)
            if "T" in c:
                c = "Option<@>"
            pieces.append([p for p in "TU" if p in x])
            return gen.ty(gen.fill(c, "«" + gen.fill(b, *[x] * gen.holes(b)) + "»"))

        kind = rnd.randrange(3)
        if kind == 0:
            body = "pub struct D<'a, T, U>(" + ", ".join(fty() for _ in range(rnd.randrange(2, 6))) + ");"
        elif kind == 1:
            body = "pub struct D<'a, T, U> { " + ", ".join(f"x{i}: {fty()}" for i in range(rnd.randrange(2, 6))) + " }"
        else:
            vs = []
            for i in range(rnd.randrange(2, 4)):
                if rnd.random() < 0.5:
                    vs.append(f"V{i}(" + ", ".join(fty() for _ in range(rnd.randrange(1, 4))) + ")")
                else:
                    vs.append(f"V{i} {{ " + ", ".join(f"x{j}: {fty()}" for j in range(rnd.randrange(1, 4))) + " }")
            body = f"pub enum D<'a, T, U> {{ {', '.join(vs)} }}"
        if re.search(r"[&*] ?('a |'static )?(mut |const )?«(dyn|impl)[^»]*\+", body) or errors(body) < 2:
            continue
        order = []
        for p in "TU":
            for i, ds in enumerate(pieces):
                if p in ds and i not in order:
                    order.append(i)
        out.append(Rej("@D@ " + ("" if two else "#[funcmap(params(T))] ") + body, order=order))
        n += 1
    return out


def impl_free(args):
    tag, k, defs, derive, tc, _ = args
    name = f"fv_rej_{tag}_{k}"
    src, _ = crate(defs, derive)
    path = os.path.join(CACHE, "wit-src", name + ".rs")
    put(path, src)
    p = sh(["rustc", "+" + tc, "--crate-name", name, "--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded"] + wit.flags(tc) + [path], env=env())
    if "mod sup" not in p.stdout:
        raise Broken(f"no expansion of {path}: {p.stderr[-500:]}")
    cur, bad, seen = None, {}, set()
    for l in p.stdout.splitlines():
        m = re.match(r"mod (m\d+) \{", l)
        if m:
            cur = m.group(1)
            seen.add(cur)
        elif cur and re.match(r"\s*(unsafe )?impl\b", l):
            bad.setdefault(cur, l.strip())
    if len(seen) != len(defs):
        raise Broken(f"expansion of {path} is incomplete")
    return [(d, bad[d.mod]) for d in defs if d.mod in bad]


def c19():
    rep = Report("C19", "exploration")
    from . import macro

    obs = macro.obligations(rep)
    defs = prepare(multi(tier(), seed()) + large(True, seed()))
    n = judge(rep, defs, "reported")
    wit.artifacts("nightly")
    for tr in ("FuncMap", "TryFuncMap"):
        for r in wit.parallel(impl_free, chunks(f"x_{tr}", defs, f"#[derive(funcmap::{tr})]", "nightly", 400)):
            for d, l in r:
                rep.violation(f"{tr} impl: {plain(d.text)}", f"derive({tr}) on `{plain(d.text)}` reports errors and still generates `{l}`", SRC, {"definition": d.text})
            n += 1
    rep.coverage = {
        "explanation": f"{len(defs)} definitions with two or more errors (in options; in selected parameters, helper attributes of parameters, variants and fields, missing parameters, unions; in field types, for one or two mapped parameters): the errors of the macro must be exactly the marked pieces, in the order of the source (for each mapped parameter), and the expanded crate must contain no impl. In the code of the macro crate ({macro.count('err', 'fns')} functions, {macro.count('err', 'drops')} drops of values that may hold an error, after drop elaboration), no error or error collection is dropped or handed to something that discards it ({len(obs)} places).",
        "evaluations": n,
        "distinct_inputs": len(defs),
        "obligations": n + len(obs),
        "functions": macro.count("err", "fns"),
        "samples": [plain(d.text) for d in defs[:: max(1, len(defs) // 6)]][:6],
    }
    rep.assumptions = ["rustc's parser and diagnostics", "options are read before the item, and the item before its field types are mapped; errors of a later stage are not looked for once an earlier one failed"]
    return rep.finish()


# ---------------------------------------------------------------------- C17


def droppable(thorough, sd):
    """(generics, arguments, where clause, body, options); all fields can be copied, so nothing but the macro objects"""
    rnd = random.Random(sd * 13 + 5)
    out = []
    generics = [
        # parameters, arguments, where clause, fields that can be copied
        ("T", "T", "", ["PhantomData<T>"]),
        ("T: Copy", "T", "", ["T"]),
        ("T: Copy + 'static", "T", "", ["T", "PhantomData<T>"]),
        ("T", "T", "T: Copy", ["T", "Option<T>", "(T, T)"]),
        ("T", "T", "T: Tr1<T> + Copy, [T; 2]: Copy", ["[T; 2]"]),
        ("'a, T", "'a, T", "", ["PhantomData<T>", "&'a str"]),
        ("'a, 'b: 'a, T: 'a", "'a, 'b, T", "T: Copy", ["&'a u8", "T", "PhantomData<&'b ()>"]),
        ("T: Copy, const N: usize", "T, N", "", ["[T; N]"]),
        ("const N: usize, T", "N, T", "[T; N]: Copy, T: Copy", ["[T; N]", "[u8; N]"]),
        ("T, U", "T, U", "", ["PhantomData<T>", "PhantomData<U>"]),
        ("T: Copy, U: Copy", "T, U", "", ["T", "U", "(T, U)"]),
        ("T: Copy, U: Tr1<T>", "T, U", "", ["T", "PhantomData<U>"]),
        ("T = u8", "T", "", ["PhantomData<T>"]),
        ("T: Copy = u8, const N: usize = 3", "T, N", "", ["T"]),
        ("#[cfg(all())] T: Copy", "T", "", ["T"]),
        ("T: ?Sized", "T", "", ["PhantomData<T>"]),
        ("T: As", "T", "T::X: Copy", ["PhantomData<T>"]),
        ("T: Drop", "T", "", ["PhantomData<T>"]),
        ("A: Copy, B: Copy", "A, B", "", ["A", "B"]),
        ("r#T: Copy", "T", "", ["T"]),
        ("T, const B: bool", "T, B", "for<'x> &'x T: Tr", ["PhantomData<T>"]),
        ("T: Copy", "T", "Self: Sized", ["T"]),
        ("T", "T", "", ["std::mem::ManuallyDrop<Vec<T>>"]),
        ("T", "T", "", ["T", "Vec<T>"]),
        ("'a, T, U, const N: usize", "'a, T, U, N", "T: 'a, U: 'a", ["&'a [u8; N]", "PhantomData<Vec<U>>", "PhantomData<T>"]),
    ]
    for g, args, w, fs in generics:
        names = [x for x in args.split(", ") if not x.startswith("'") and f"const {x}" not in g]
        opts = ["", '#[funcmap(crate = "::funcmap")] '] + [f"#[funcmap(params({n}))] " for n in names]
        if len(names) > 1:
            opts.append(f"#[funcmap(params({', '.join(reversed(names))}))] ")
        wh = f" where {w}" if w else ""
        bodies = [
            f"struct D<{g}>({', '.join(fs)}){wh};",
            f"struct D<{g}>{wh} {{ {', '.join(f'x{i}: {f}' for i, f in enumerate(fs))} }}",
            f"enum D<{g}>{wh} {{ A({', '.join(fs)}), B }}",
            f"enum D<{g}>{wh} {{ A, B {{ {', '.join(f'x{i}: {f}' for i, f in enumerate(fs))} }} }}",
        ]
        ig = re.sub(r" = [^,>]*", "", g).replace("#[cfg(all())] ", "")
        drop = f"impl<{ig}> Drop for D<{args}>{wh.replace('Self', f'D<{args}>')} {{ fn drop(&mut self) {{}} }}"
        for o in opts:
            for b in bodies:
                out.append(("@D@ " + o + rnd.choice(["", "pub ", "pub(crate) "]) + b, drop))
    return out + wide(2000 if thorough else 250, sd)


def wide(count, sd):
    """the same with more of everything: parameters, bounds, fields, variants, attributes"""
    rnd = random.Random(sd * 31 + 17)
    out = []
    for k in range(count):
        big = lambda few, many: rnd.randrange(many + 1) if rnd.random() < 0.3 else rnd.randrange(few + 1)
        lts = [f"'l{i}" for i in range(big(1, 4))]
        tys = rnd.sample(["T", "U", "V", "A", "B", "C", "X", "Y", "Z", "F", "E", "Output", "Item", "r#Raw"], 1 + big(2, 9))
        cns = rnd.sample(["N", "M", "K", "LEN"], big(1, 3))
        copy = [t for t in tys if rnd.random() < 0.4]
        params, preds, fields = [], [], []
        for l in lts:
            b = rnd.sample(lts, 1) if rnd.random() < 0.3 else []
            params.append(l + (": " + " + ".join(b) if b else ""))
            fields.append(rnd.choice([f"&{l} u8", f"PhantomData<&{l} ()>", f"Option<&{l} str>"]))
        order = []
        for t in tys:
            b = []
            if t in copy:
                (b.append if rnd.random() < 0.5 else lambda x: preds.append(f"{t}: {x}"))("Copy")
            elif rnd.random() < 0.2:
                b.append("?Sized")
            if rnd.random() < 0.3:
                b.append(rnd.choice(["Tr", "Clone", "Send + Sync", "'static", "Tr1<u8>"] + [f"Tr1<{x}>" for x in tys if x in copy] + lts))
            order.append(t + (": " + " + ".join(b) if b else ""))
            fields.append(rnd.choice([t, f"({t}, u8)", f"Option<{t}>", f"[{t}; 2]"] if t in copy else [f"PhantomData<{t}>", f"(PhantomData<{t}>, u8)", f"Option<PhantomData<{t}>>"]))
        for c in cns:
            order.append(f"const {c}: usize")
            if rnd.random() < 0.7:
                fields.append(rnd.choice([f"[u8; {c}]", f"[(); {c}]"]))
        rnd.shuffle(order)
        params += order
        if lts and rnd.random() < 0.3:
            preds.append(f"{rnd.choice(lts)}: {rnd.choice(lts)}")
        if rnd.random() < 0.2:
            preds.append(rnd.choice(["u8: Copy", "for<'x> &'x u8: Copy", f"Option<{rnd.choice(tys)}>: Sized" if not any("?Sized" in p for p in params) else "u8: Clone"]))
        for _ in range(big(1, 10)):
            fields.append(rnd.choice(["u8", "bool", "()", "&'static str", "char", "[u8; 3]"]))
        # an option may have to be the last to be given a unique owner
        rnd.shuffle(fields)
        names = [re.match(r"(?:const )?([\w#']+)", p).group(1) for p in params]
        sel = rnd.sample(tys, 1 + rnd.randrange(len(tys)))
        opt = rnd.choice(["", "", f"#[funcmap(params({', '.join(sel)}))] ", f'#[funcmap(crate = "::funcmap")] #[funcmap(params({", ".join(sel)}))] ', f"#[funcmap(params({rnd.choice(names)}))] " if rnd.random() < 0.3 and lts == [] and not cns else ""])
        attr = rnd.choice(["", "", "", "/// docs\n", "#[derive(Debug)] ", "#[allow(unused)] ", "#[non_exhaustive] ", "#[must_use] "])
        if "Debug" in attr and any("?Sized" in p for p in params):
            attr = ""
        named = rnd.random() < 0.5
        fld = lambda fs, named: "{ " + ", ".join(f"x{i}: {f}" for i, f in enumerate(fs)) + " }" if named else "(" + ", ".join(fs) + ")"
        wh = " where " + ", ".join(preds) if preds else ""
        name = rnd.choice(["D", "D", "D", "r#Dx", "T0", "FuncMapped"])
        g = ", ".join(params)
        if rnd.random() < 0.5:
            body = f"struct {name}<{g}>" + (f"{wh} {fld(fields, True)}" if named else f"{fld(fields, False)}{wh};")
        else:
            n = 1 + big(2, 12)
            vs = [[] for _ in range(n)]
            for f in fields:
                rnd.choice(vs).append(f)
            body = f"enum {name}<{g}>{wh} {{ " + ", ".join(f"V{i}" + ((" " + fld(v, rnd.random() < 0.5)) if v or rnd.random() < 0.3 else "") for i, v in enumerate(vs)) + " }"
        drop = f"impl<{g}> Drop for {name}<{', '.join(names)}>{wh} {{ fn drop(&mut self) {{}} }}"
        out.append((f"{attr}@D@ {opt}{rnd.choice(['', 'pub '])}{body}", drop))
    return out


def until_quiet(tag, defs, derive, tc):
    """the definitions for which rustc reports no error, when those with errors are taken out one after another"""
    todo = list(defs)
    rounds = 0
    while todo and rounds < 20:
        rounds += 1
        nxt = []
        for ok, per, info, path in wit.parallel(run, chunks(f"{tag}", todo, derive, tc, 100)):
            mine = [d for d in todo if d.mod in per]
            if ok:
                nxt += [(d, True) for d in mine]
                continue
            if not any(per[d.mod] for d in mine):
                raise Broken(f"{path} does not compile, no definition at fault")
            nxt += [(d, False) for d in mine if not per[d.mod]]
        if nxt and all(q for _, q in nxt):
            return [d for d, _ in nxt]
        todo = [d for d, _ in nxt]
    return todo


def c17():
    rep = Report("C17", "exploration")
    tc = project_toolchain()
    wit.artifacts(tc)
    pairs = droppable(tier(), seed())
    n = 0
    for tr in ("FuncMap", "TryFuncMap", "FuncMap, TryFuncMap"):
        dv = "#[derive(" + ", ".join("funcmap::" + x for x in tr.split(", ")) + ")]"
        both = "," in tr
        key = "both" if both else tr
        # the twins compile, with and without the derive
        for tag, dd, mk in [("u", "", lambda t, d: t.replace("@D@", "") + " " + d), ("p", dv, lambda t, d: t)][both:]:
            if tag == "u":
                mk = lambda t, d: re.sub(r"#\[funcmap[^\]]*\] ", "", t).replace("@D@", "") + " " + d
            defs = prepare([Rej(mk(t, d)) for t, d in pairs])
            for ok, per, info, path in wit.parallel(run, chunks(f"c17{tag}_{key}", defs, dd, tc)):
                for d in defs:
                    if d.mod in per:
                        n += 1
                        if per[d.mod]:
                            if tag == "u":
                                raise Broken(f"`{plain(d.text)}` does not compile: {per[d.mod][0]['message']}")
                            rep.violation(f"{tr} positive: {plain(d.text)}", f"derive({tr}) on `{plain(d.text)}`, which does not implement Drop, does not compile: {per[d.mod][0]['message']}", SRC, {"definition": d.text, "error": per[d.mod][0].get("rendered")})
        # before and after the definition, in another module, through a macro
        forms = []
        for i, (t, d) in enumerate(pairs):
            f = i % 4
            forms.append(
                t + " " + d if f == 0
                else d + " " + t if f == 1
                else t + " mod x { use super::*; " + d + " }" if f == 2
                else "macro_rules! mk { ($($t:tt)*) => { $($t)* } } mk!(" + t + " " + d + ");"
            )
        defs = prepare([Rej(f) for f in forms])
        n += len(defs)
        for d in until_quiet(f"c17_{key}", defs, dv, tc):
            rep.violation(f"{tr} Drop: {plain(d.text)}", f"derive({tr}) is accepted for a type that implements Drop: `{plain(d.text)}`", SRC, {"definition": d.text})
        # droppable fields are fine
        text = "pub struct Dr(u8); impl Drop for Dr { fn drop(&mut self) {} } pub struct Dr2<X>(X); impl<X> Drop for Dr2<X> { fn drop(&mut self) {} } "
        own = [
            "@D@ pub struct D<T>(T, Dr, Box<Dr>);", "@D@ pub struct D<T, U> { a: T, b: Dr2<u8>, c: Vec<Dr>, d: U }", "@D@ pub enum D<T> { A(Dr), B { x: T, y: Dr2<Dr> }, C(Vec<T>, Box<Dr>) }",
            "@D@ #[funcmap(params(T))] pub struct D<T, U>(T, Dr2<U>, U);", "@D@ pub struct D<T: Drop>(T, Vec<T>);", "@D@ pub struct D<T>(Option<T>, String) where T: Drop, Vec<T>: Clone;",
            "@D@ pub enum D<'a, T> { A(Box<dyn Tr + 'a>), B(T) }", "@D@ pub struct D<T>(std::rc::Rc<u8>, [Dr; 3], Vec<[T; 2]>);",
        ]
        defs = prepare([Rej(text + o) for o in own])
        for ok, per, info, path in wit.parallel(run, chunks(f"c17o_{key}", defs, dv, tc)):
            for d in defs:
                n += 1
                for e in per.get(d.mod, [])[:1]:
                    rep.violation(f"{tr} fields: {plain(d.text)}", f"derive({tr}) on `{plain(d.text)}`, which only contains droppable fields, does not compile: {e['message']}", SRC, {"definition": d.text, "error": e.get("rendered")})
    rep.coverage = {
        "explanation": f"{len(pairs)} definitions (structs and enums, generics with bounds, defaults, attributes, where clauses, lifetimes, consts, every selection) whose fields can be copied out, so that nothing but the macro's own guard can object. With an impl of Drop (before, after, in another module, through a macro) each must fail to compile with an error located at the definition; without it, or without the derive, it must compile, as must definitions with droppable fields.",
        "evaluations": n,
        "distinct_inputs": len(pairs),
        "obligations": n,
        "samples": [plain(t + " " + d) for t, d in pairs[:: max(1, len(pairs) // 6)]][:6],
    }
    rep.assumptions = ["rustc's coherence checker", "the enumerated definitions stand for the macro's handling of definitions of that form"]
    return rep.finish()


CHECKS = {"C17": c17, "C18": c18, "C19": c19}
