"""Definitions to derive for, enumerated from a grammar of generics, bounds, field types and shapes."""
import itertools
import random
import re


class Def:
    """One definition; `text` contains @D@ where the derive attribute goes."""

    def __init__(self, text, name, sel, note="", **kw):
        self.text = text
        self.name = name
        self.sel = sorted(sel)  # positions (types and consts counted) the derive has to cover
        self.note = note
        self.mod = None
        self.__dict__.update(kw)


SUP = """
pub mod sup {
    use std::marker::PhantomData;
    pub struct S1<X>(pub X);
    pub struct S2<X, Y>(pub X, pub Y);
    pub struct L1<'l, X>(pub X, pub PhantomData<&'l u8>);
    pub struct L2<'l, X>(pub PhantomData<&'l ()>, pub X);
    pub struct K1<X, const K: usize>(pub [X; K]);
    pub struct K0<const K: usize, X>(pub [X; K]);
    pub struct KK<'l, const K: usize, X, const B: bool, Y>(pub [X; K], pub Y, pub PhantomData<&'l u8>);
    pub struct D2<X, Y = u8>(pub X, pub Y);
    pub struct S3<X, Y, Z>(pub X, pub Y, pub Z);
    pub struct S5<'l, X, Y, const K: usize, Z, W, V>(pub X, pub Y, pub Z, pub W, pub V, pub PhantomData<&'l [u8; K]>);
    pub struct Uns<X: ?Sized>(pub u8, pub X);
    pub struct S16<X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15>(pub X0, pub X1, pub X2, pub X3, pub X4, pub X5, pub X6, pub X7, pub X8, pub X9, pub X10, pub X11, pub X12, pub X13, pub X14, pub X15);
    pub trait Tr {}
    pub trait Tr1<X: ?Sized> {}
    pub trait TrN<const K: usize> {}
    pub trait TrL<'l> {}
    pub trait As { type X; const C: usize; }
    pub trait As2 { type X; type Y; }
    pub trait AsU<P> { type X: ?Sized; }
    impl As for u8 { type X = u8; const C: usize = 3; }
    impl<X> As for Option<X> { type X = u16; const C: usize = 3; }
    impl<X: ?Sized> Tr for Box<X> {}
    pub const LEN: usize = 2;
    pub trait Own { fn own() {} }
    impl<X: ?Sized> Own for X {}
}
"""
USES = """    use super::sup::*;
    use std::collections::{BTreeMap, HashMap, LinkedList, VecDeque};
    use std::marker::PhantomData;
"""

C1 = """Option<@> Vec<@> Box<@> [@;~2] [@;~N] (@,) (@,~u8) (u8,~@) (@) S1<@> PhantomData<@> L1<'a,~@> K1<@,~3> K0<3,~@> K0<N,~@>
K0<{~1~+~2~},~@> K1<@,~{~N~}> KK<'a,~2,~@,~true,~u8> KK<'a,~2,~u8,~true,~@> ::std::option::Option<@> std::vec::Vec<@> crate::sup::S1<@>
super::sup::S1<@> S2<@,~u8> S2<u8,~@> BTreeMap<u8,~@> HashMap<@,~u8> Result<@,~()> Result<(),~@> Vec::<@> Option<@,> D2<@> D2<u16,~@>
VecDeque<@> std::ops::Range<@> std::rc::Rc<@> std::collections::btree_map::IntoIter<u8,~@> L2<'static,~@> K1<@,~LEN> ((@)) ((),~@,~())""".split()
C2 = """(@,~@) Result<@,~@> S2<@,~@> KK<'a,~2,~@,~true,~@> BTreeMap<@,~@> (@,~u8,~@) [(@,~@);~2] D2<@,~@> HashMap<@,~@> (@,~(@,)) S2<S1<@>,~[@;~LEN]>
S3<@,~@,~@> S3<@,~u8,~@>""".split()
# independent of every mapped parameter
IND = """u8 () [u8;~2] &'a~str &'static~[u8] fn(u8)~->~u8 *const~u8 Box<dyn~Fn(u8)~->~u8> PhantomData<u8> Option<[u8;~N]> <u8~as~As>::X
<Option<u8>~as~As>::X Box<dyn~Tr~+~'a> unsafe~extern~"C"~fn(*mut~u8) K1<u8,~N> Box<[u8]> &'a~mut~(dyn~Tr~+~Send)
for<'x>~fn(&'x~u8)~->~&'x~u8 [[u8;~N];~2] [u8;~LEN~+~1] L1<'a,~u8> Option<(u8,~&'static~str)>""".split()


def ty(t):
    return t.replace("~", " ")


def fill(t, *xs):
    it = iter(xs)
    return re.sub("@", lambda m: next(it), t)


def holes(t):
    return t.count("@")


def params_of(text, extra=(), want=("T", "U")):
    """generic parameters a set of field types needs"""
    p = []
    if "'a" in text:
        p.append("'a")
    for x in want:
        if re.search(rf"\b{x}\b", text):
            p.append(x)
    if re.search(r"\bN\b", text):
        p.append("const N: usize")
    return p


def positions(params):
    """(index, name, is type) of the parameters that count"""
    r = []
    i = 0
    for p in params:
        if p.startswith("'"):
            continue
        r.append((i, re.sub(r"^const ", "", p).split(":")[0].split("=")[0].strip(), not p.startswith("const ")))
        i += 1
    return r


def all_types(params):
    return [i for i, _, t in positions(params) if t]


FNAMES = "x y value f field_0 r#type r#fn _z self_ func_map Ok ä match_ A".split()
VNAMES = "V0 Some r#fn Ok None Err Self_ B C X1 Vec".split()


def fields(tys, style, rnd=None):
    if style == "tuple":
        return "(" + ", ".join(tys) + ")"
    names = FNAMES[:]
    if rnd:
        rnd.shuffle(names)
    return "{ " + ", ".join(f"{names[i % len(names)]}{'' if i < len(names) else i}: {t}" for i, t in enumerate(tys)) + " }"


def struct(tys, style="tuple", rnd=None, name="D", params=None, where=""):
    params = params if params is not None else params_of(" ".join(tys))
    g = "<" + ", ".join(params) + ">"
    w = f" where {where}" if where else ""
    if style == "tuple":
        body = fields(tys, style) + w + ";"
    else:
        body = w + " " + fields(tys, style, rnd)
    return Def(f"@D@\n    pub struct {name}{g}{body}", name, all_types(params))


def enum(variants, rnd=None, name="D", params=None, where=""):
    """variants: list of (style, tys)"""
    params = params if params is not None else params_of(" ".join(" ".join(t) for _, t in variants))
    names = VNAMES[:]
    if rnd:
        rnd.shuffle(names)
    vs = []
    for i, (style, tys) in enumerate(variants):
        n = names[i % len(names)] + ("" if i < len(names) else str(i))
        vs.append(n + ("" if style == "unit" else fields(tys, style, rnd)))
    w = f" where {where}" if where else ""
    return Def(f"@D@\n    pub enum {name}<{', '.join(params)}>{w} {{ {', '.join(vs)} }}", name, all_types(params))


def rand_ty(rnd, depth, atoms=("T",)):
    if depth == 0 or rnd.random() < 0.12:
        return rnd.choice(atoms)
    if rnd.random() < 0.3:
        t = rnd.choice(C2)
    else:
        t = rnd.choice(C1)
    xs = []
    n = holes(t)
    keep = rnd.randrange(n)
    for i in range(n):
        xs.append(rand_ty(rnd, depth - 1, atoms) if i == keep or rnd.random() < 0.7 else rnd.choice(["u8", "()", "Option<u8>"]))
    return fill(t, *xs)


def types_group(thorough, seed):
    """field types and shapes (C11, C12)"""
    rnd = random.Random(seed)
    out = []
    # one level, each on its own
    for c in C1:
        out.append(struct([ty(fill(c, "T"))]))
        out[-1].note = ty(c)
    for c in C2:
        for xs in itertools.product(["T", "U", "u8"], repeat=holes(c)):
            if "T" in xs or "U" in xs:
                out.append(struct([ty(fill(c, *xs))]))
    # two levels, all pairs
    pairs = [ty(fill(a, fill(b, "T"))) for a in C1 for b in C1]
    pairs += [ty(fill(a, *[fill(b, "T") if i == k else "U" for i in range(holes(a))])) for a in C2 for b in C1 for k in range(holes(a))]
    pairs += [ty(fill(b, fill(a, *["T"] * holes(a)))) for a in C2 for b in C1]
    rnd.shuffle(pairs)
    if not thorough:
        pairs = pairs[:900]
    for i in range(0, len(pairs), 4):
        out.append(struct(pairs[i : i + 4], rnd.choice(["tuple", "named"]), rnd))
    # fields that do not depend on the parameter, in every place
    for x in IND:
        out.append(struct([ty(x), "T", ty(x), "Vec<T>"]))
        out.append(struct(["Option<T>", f"Result<T, {ty(x)}>", f"({ty(x)}, T)"], "named", rnd))
    # shapes
    out.append(Def("@D@\n    pub enum D<T> { A, B {}, C(), E(T) }", "D", [0]))
    out.append(Def("@D@\n    pub enum D<T> { A(PhantomData<T>) }", "D", [0]))
    out.append(Def("@D@\n    pub enum D<T> { A { x: T, y: Option<T> }, B(T, T), C(u8, T), E }", "D", [0]))
    out.append(Def("@D@\n    #[repr(u8)]\n    pub enum D<T> { A(T) = 3, B = 1, C { a: T } = 2 }", "D", [0]))
    out.append(Def("@D@\n    #[non_exhaustive]\n    pub struct D<T> { pub a: T, pub(crate) b: T, pub(super) c: (T, T), pub(in crate) d: T }", "D", [0]))
    out.append(Def("@D@\n    pub struct D<T> { #[doc = \"x\"] a: T, /// doc\n b: T, #[cfg(all())] c: T, #[cfg(any())] d: Nope<T>, e: u8 }", "D", [0]))
    out.append(Def("@D@\n    pub enum D<T> { #[cfg(any())] A(Nope<T>), #[cfg(all())] B(#[cfg(any())] Nope, T), #[allow(dead_code)] C(T) }", "D", [0]))
    out.append(Def("@D@\n    pub struct D<T>(pub T, pub(crate) T, pub Option<T>, T,) where;", "D", [0]))
    out.append(Def("@D@\n    struct D<T>(T) where T: ;", "D", [0]))
    out.append(Def("@D@\n    pub struct D<T, U>(Option<T>, Option<U>, T, U, (T, U), (U, T), Result<T, U>, Result<U, T>);", "D", [0, 1]))
    out.append(Def("@D@\n    pub enum D<T, U, V> { A(T), B(U), C(V), AB(T, U), BC { b: U, c: V }, All(Option<(T, U, V)>) }", "D", [0, 1, 2]))
    out.append(Def("macro_rules! mk { ($n:ident, $t:ty, $u:ty) => { @D@ pub struct $n<T>($t, Vec<$t>, ($u, $t), [$u; 2], Option<Option<$u>>); } }\n    mk!(D, Option<T>, T);", "D", [0]))
    out.append(Def("macro_rules! mk { ($v:vis $n:ident<$p:ident> $($f:ident: $t:ty),*) => { @D@ $v enum $n<$p> { A { $($f: $t),* }, B($($t),*) } } }\n    mk!(pub D<Q> a: Q, b: (Q, [Q; 2]), c: u8, d: Box<S1<Q>>);", "D", [0]))
    out.append(Def("macro_rules! mk { ($($t:tt)*) => { $($t)* } }\n    mk!(@D@ pub struct D<T>(T, Option<T>););", "D", [0]))
    out.append(Def("macro_rules! mk { ($(#[$m:meta])* $n:ident, $e:expr, $l:literal, $b:block, $bb:expr) => { @D@ $(#[$m])* pub struct $n<T, U>(K1<T, $l>, K1<T, $b>, K0<{ $e }, T>, KK<'static, $l, T, $bb, u8>, KK<'static, $l, u8, { $bb }, T>, [T; $e], [T; $b], U); } }\n    mk!(#[doc = \"a\"] #[funcmap(params(T))] D, 1 + 2, 4, { 2 }, true);", "D", [0]))
    out.append(Def("macro_rules! mk { ($n:ident, $c:expr, $p:ty, $l:lifetime, $q:path, $v:vis) => { @D@ #[funcmap(crate = $c, params($p))] pub struct $n<$l, T, U>($v T, U, &$l u8, PhantomData<$q>, Option<$p>, $v $q); } }\n    mk!(D, \"::funcmap\", U, 'x, Option<U>, pub(crate));", "D", [1]))
    out.append(Def("macro_rules! mk { ($($i:item)*) => { $(@D@ $i)* } }\n    mk!(pub enum D<T> { A(T, Option<T>), B { x: Vec<T> } });", "D", [0]))
    out.append(Def("@D@\n    pub enum D<T> { A(r#T, Option<r#T>), B { x: S2<r#T, u8>, y: (T, r#T), r#z: [r#T; 2] } }", "D", [0]))
    out.append(Def("@D@\n    pub struct D<r#T> { r#a: T, b: Vec<Option<r#T>>, r#type: (u8, T) }", "D", [0]))
    out.append(Def("@D@\n    pub struct D<r#type>(r#type, Option<r#type>, (u8, r#type));", "D", [0]))
    for k in (11, 12, 13, 16, 17, 26, 33):
        out.append(Def(f"@D@\n    pub struct D<T>(T, ({', '.join('T' if i % 3 != 1 else 'u8' for i in range(k))}));", "D", [0], note=f"tuple of {k}"))
    out.append(Def("pub fn f() { @D@ struct D<T>(T, Vec<T>); }", "D", [0]))
    out.append(Def("const _: () = { @D@ struct D<T> { a: T, b: [Vec<T>; 3] } };", "D", [0]))
    for xs in ("TTTTT", "TUTUT", "UTuTT", "uuTuT", "TTUUU", "TuuuT"):
        out.append(struct(["S5<'a, %s, %s, 2, %s, %s, %s>" % tuple("u8" if x == "u" else x for x in xs), "S3<%s, Option<%s>, [%s; 2]>" % tuple("u8" if x == "u" else x for x in xs[1:4])]))
    wide = ["T" if i % 3 else f"Option<({'T, ' * (i % 4)}u8, T)>" for i in range(24)]
    out.append(struct(wide))
    out.append(struct(wide, "named"))
    out.append(enum([("tuple", wide[i : i + 4]) for i in range(0, 24, 4)] + [("named", wide[:5]), ("unit", [])]))
    # random definitions
    for i in range(400 if thorough else 90):
        atoms = rnd.choice([("T",), ("T", "U"), ("T", "T", "U", "u8"), ("T", "U", "V")])
        tys = [ty(rnd.choice(IND)) if rnd.random() < 0.15 else ty(rand_ty(rnd, rnd.choice([1, 2, 2, 3] + [4] * thorough), atoms)) for _ in range(rnd.randrange(1, 6))]
        if not any(re.search(r"\bT\b", t) for t in tys):
            tys.append("T")
        want = [x for x in "TUV"]
        params = params_of(" ".join(tys), want=want)
        if rnd.random() < 0.5:
            d = struct(tys, rnd.choice(["tuple", "named"]), rnd, params=params)
        else:
            vs = []
            rest = tys
            while rest:
                k = rnd.randrange(1, len(rest) + 1)
                vs.append((rnd.choice(["tuple", "named"]), rest[:k]))
                rest = rest[k:]
            vs += [("unit", [])] * rnd.randrange(0, 2)
            rnd.shuffle(vs)
            d = enum(vs, rnd, params=params)
        out.append(d)
    return out


def large_types(thorough, seed):
    """many fields, variants, elements, arguments, levels (C11, C12)"""
    rnd = random.Random(seed + 7)
    out = []
    n = 400 if thorough else 150
    pick = ["T", "T", "u8", "Option<T>", "(T, u8)", "U", "Result<U, T>"]
    tys = [rnd.choice(pick) for _ in range(n)]
    for style in ("tuple", "named"):
        out.append(struct(tys, style, rnd, params=["T", "U"]))
        out.append(enum([("unit", []), (style, tys[: n // 2]), ("tuple", ["T", "T"])], params=["T", "U"]))
        out.append(enum([(style, [rnd.choice(pick), "T", "Option<T>"]) for i in range(n)], params=["T", "U"]))
    out.append(enum([(("unit", []) if i % 50 else ("tuple", ["T", "(T, Option<T>)"])) for i in range(2 * n)], params=["T"]))
    out.append(struct(["(" + ", ".join(rnd.choice(pick) for _ in range(60)) + ")", "T", "(" + ", ".join(["T"] * 30) + ")"], params=["T", "U"]))
    for xs in (["T"] * 16, ["T" if i % 3 == 0 else "u8" if i % 3 == 1 else "U" for i in range(16)], ["u8"] * 15 + ["T"], ["Option<T>", "U"] * 8):
        out.append(struct([f"S16<{', '.join(xs)}>", "T"], params=["T"] + ["U"] * ("U" in xs)))
    for k in range(4):
        t = "T"
        for i in range(rnd.randrange(12, 20)):
            t = fill(ty(rnd.choice(["Option<@>", "Vec<@>", "(@,~u8)", "[@;~2]", "S1<@>", "(@)", "S2<u8,~@>", "Result<@,~()>"])), t)
        out.append(struct([t, "T"], rnd.choice(["tuple", "named"])))
    return out


def large_bounds(thorough, seed):
    """many bounds and predicates (C14)"""
    out = []
    n = 60 if thorough else 24
    bs = [f"Tr1<[T; {i}]>" for i in range(n)]
    us = [f"Tr1<[(T, u8); {i}]>" for i in range(n)]
    out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<T: {' + '.join(bs)}, U: {' + '.join(us)}>(Option<T>, U);", "D", [0], note=f"{n} bounds"))
    out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U>(Option<T>, U) where T: {' + '.join(bs)}, U: {' + '.join(us)};", "D", [0], note=f"{n} bounds in a where clause"))
    ps = [f"Vec<[T; {i}]>: Tr" if i % 3 else f"[U; {i}]: Tr1<T>" for i in range(n)] + ["T: Tr", "U: Tr1<T>"]
    out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U>(Option<T>, PhantomData<U>) where {', '.join(ps)};", "D", [0], note=f"{n} predicates"))
    lts = [f"'l{i}" for i in range(n)]
    out.append(Def(f"@D@\n    pub struct D<{', '.join(l + (': ' + lts[i - 1] if i else '') for i, l in enumerate(lts))}, T>(T, {', '.join(f'&{l} u8' for l in lts)});", "D", [0], note=f"{n} lifetimes"))
    for k in (5, 6, 9, 20):
        # the type itself, with many parameters
        ps = [f"'l{i}" for i in range(k // 3)] + [f"P{i}" for i in range(k)] + [f"const N{i}: usize" for i in range(k // 4)] + ["T"]
        fs = [f"&'l{i} u8" for i in range(k // 3)] + [f"PhantomData<P{i}>" for i in range(k)] + [f"[u8; N{i}]" for i in range(k // 4)] + ["Option<T>", "PhantomData<Self>"]
        for pred in ("Self: Tr", "T: Tr1<Self>, P1: Tr1<Option<Self>>", "Self: As, <Self as As>::X: Tr1<Self>", "for<'x> &'x Self: Tr1<T>, [Self; 3]: Tr, P2: Fn(Self) -> Self"):
            out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<{', '.join(ps)}>({', '.join(fs)}) where {pred};", "D", [k + k // 4], note=f"{len(ps)} parameters, {pred}"))
    deep = "Vec<Option<" * 12 + "T" + ">>" * 12
    out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: Tr1<{deep}>>(Option<T>, U) where {deep}: Tr;", "D", [0], note="deep types in bounds"))
    return out


def generics_group(thorough, seed):
    """parameter lists and selections (C13)"""
    rnd = random.Random(seed + 1)
    out = []
    forms = {
        "'a": ["'a", "'a: 'a", "#[cfg(all())] 'a"],
        "'b": ["'b", "'b: 'a"],
        "T": ["T", "T: Tr", "T: Tr + 'static", "#[cfg(all())] T", "T: Tr1<u8>"],
        "U": ["U", "U: Clone", "#[allow(unused)] U", "U: Own"],
        "r#as": ["r#as"],
        "N": ["const N: usize", "#[cfg(all())] const N: usize"],
        "M": ["const M: bool"],
    }
    base = ["T", "U", "N", "M", "r#as"]
    lists = []
    for n in range(1, 4 if not thorough else 6):
        for p in itertools.permutations(base, n):
            if not any(x in ("T", "U", "r#as") for x in p):
                continue
            lists.append(list(p))
    if not thorough:
        lists = [l for l in lists if len(l) < 3] + rnd.sample([l for l in lists if len(l) == 3], 30)
    elif len(lists) > 250:
        lists = rnd.sample(lists, 250)
    for l in lists:
        lts = rnd.choice([[], ["'a"], ["'a", "'b"]])
        names = lts + l
        decl = [rnd.choice(forms[x]) for x in names]
        # trailing defaults
        if rnd.random() < 0.4:
            k = rnd.randrange(len(l) + 1)
            for i in range(len(decl) - k, len(decl)):
                x = names[i]
                if x.startswith("'"):
                    continue
                if any(c in decl[i] for c in ("Tr", "Clone")):
                    break
            else:
                for i in range(len(decl) - k, len(decl)):
                    x = names[i]
                    if not x.startswith("'"):
                        decl[i] += {"N": " = 3", "M": " = true"}.get(x, " = u8")
        fs = []
        for x in names:
            if x.startswith("'"):
                fs.append(f"PhantomData<&{x} ()>")
            elif x in ("N", "M"):
                pass
            else:
                fs.append(rnd.choice([x, f"Option<{x}>", f"({x}, u8)"] + ([f"[{x}; N]"] if "N" in names else [])))
        tparams = [x for x in l if x in ("T", "U", "r#as")]
        pos = {x: i for i, x in enumerate(l)}
        # without options, and with every selection in some order and grouping
        sels = [None]
        for n in range(1, len(tparams) + 1):
            sels += [list(s) for s in itertools.permutations(tparams, n)]
        if not thorough and len(sels) > 4:
            sels = [None] + rnd.sample(sels[1:], 3)
        for s in sels:
            attr = ""
            if s:
                how = rnd.randrange(4)
                if how == 0:
                    attr = f"#[funcmap(params({', '.join(s)}))]"
                elif how == 1:
                    attr = f"#[funcmap({', '.join(f'params({x})' for x in s)},)]"
                elif how == 2:
                    attr = "\n    ".join(f"#[funcmap(params({x},))]" for x in s)
                else:
                    attr = f"#[funcmap(params({s[0]}))]" + (f" #[doc = \"x\"] #[funcmap(params({', '.join(s[1:])}))]" if s[1:] else "")
            body = f"@D@\n    {attr}\n    pub struct D<{', '.join(decl)}>({', '.join(fs)});"
            if rnd.random() < 0.4:
                body = f"@D@\n    {attr}\n    pub enum D<{', '.join(decl)}> {{ A({', '.join(fs)}), B }}"
            if rnd.random() < 0.15 and attr:
                body = body.replace(attr, f"#[funcmap(crate = \"::funcmap\")] {attr}")
            out.append(Def(body, "D", [pos[x] for x in (s or tparams)], note=f"<{', '.join(decl)}> {attr}"))
    # many parameters
    for n in (9, 12, 20, 30):
        ps = [f"P{i}" for i in range(n)]
        out.append(Def(f"@D@\n    pub struct D<{', '.join(ps)}>({', '.join(ps)});", "D", range(n)))
        for k in (3, 4, n // 2, n - 1, n):
            s = rnd.sample(range(n), k)
            mixed = [f"const {p}: usize" if i not in s and i % 3 == 0 else p for i, p in enumerate(ps)]
            fs = [f"[u8; {p}]" if "const" in m else rnd.choice([p, f"Option<{p}>", f"({p}, {ps[s[0]]})"]) for p, m in zip(ps, mixed)]
            cut = rnd.randrange(k + 1)
            attr = f"#[funcmap(params({', '.join(ps[i] for i in s)}))]" if rnd.random() < 0.5 or cut in (0, k) else f"#[funcmap(params({', '.join(ps[i] for i in s[:cut])}), params({', '.join(ps[i] for i in s[cut:])}))]"
            out.append(Def(f"@D@\n    {attr}\n    pub struct D<'a, {', '.join(mixed)}>(PhantomData<&'a u8>, {', '.join(fs)});", "D", s, note=f"{n} parameters, {attr}"))
        ms = [f"const {p}: usize" if i % 4 == 1 else p for i, p in enumerate(ps)]
        out.append(Def(f"@D@\n    pub enum D<{', '.join(ms)}> {{ {', '.join(f'V{i}([u8; {p}])' if i % 4 == 1 else f'V{i}({p}, Vec<{p}>)' for i, p in enumerate(ps))} }}", "D", [i for i in range(n) if i % 4 != 1], note=f"{n} parameters"))
        attrs = "\n    ".join(f"#[funcmap(params({ps[i]}))]" for i in s)
        out.append(Def(f"@D@\n    {attrs}\n    pub enum D<{', '.join(ps)}> {{ {', '.join(f'V{i}(Option<{p}>)' for i, p in enumerate(ps))} }}", "D", s, note=f"{len(s)} options"))
    # other spellings
    out += [
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U>(T, fn(U) -> U, *const U);", "D", [0], note="unselected parameter in unsupported positions"),
        Def("@D@\n    #[funcmap(params(U))]\n    pub struct D<T, U>(&'static [T], U) where T: 'static;", "D", [1]),
        # names that differ in case only, and attributes of others with the same name
        Def("@D@\n    #[funcmap(params(t))]\n    pub struct D<T, t>(T, t);", "D", [1]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<t, T>(T, t);", "D", [1]),
        Def("@D@\n    #[funcmap(params(Ab, aB))]\n    pub struct D<AB, Ab, aB, ab>(AB, Ab, aB, ab);", "D", [1, 2]),
        Def("@D@\n    #[rustfmt::funcmap(params(U))]\n    #[funcmap(params(T))]\n    pub struct D<T, U>(T, #[rustfmt::funcmap] U);", "D", [0]),
        Def("@D@\n    #[rustfmt::funcmap(foo)]\n    pub enum D<T, U> { #[rustfmt::funcmap] A(T), #[rustfmt::skip] B { #[rustfmt::funcmap(x)] x: U } }", "D", [0, 1]),
        Def("@D@\n    #[funcmap(params(r#T))]\n    pub struct D<T, U>(T, U);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<r#T, U>(T, U);", "D", [0]),
        Def("@D@\n    pub struct D<r#T>(T, r#T, Option<r#T>);", "D", [0]),
        Def("@D@\n    pub struct D<T, U = T>(T, U);", "D", [0, 1]),
        Def("@D@\n    pub struct D<T, U = Vec<T>>(T, Option<U>);", "D", [0, 1]),
        Def("@D@\n    pub struct D<const N: usize, T = [u8; 3]>([T; N]);", "D", [1]),
        Def("@D@\n    pub struct D<T, const N: usize = { 1 + 1 }>([T; N]);", "D", [0]),
        Def("@D@\n    pub struct D<T, const C: char = 'x', const I: i8 = -1>(T);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T), crate = \"::funcmap\")]\n    pub struct D<'a, 'b: 'a, const N: usize, U, T>(T, U, PhantomData<&'a &'b [u8; N]>);", "D", [2]),
        Def("@D@\n    #[cfg_attr(all(), funcmap(params(T)))]\n    pub struct D<T, U>(T, U);", "D", [0]),
        Def("@D@\n    pub struct D<T,>(T,);", "D", [0]),
        Def("@D@\n    pub struct D<'a, 'b, 'c: 'a + 'b, T: 'a>(&'a u8, &'b u8, &'c u8, T);", "D", [0]),
    ]
    return out


def bounds_group(thorough, seed):
    """bounds and where clauses (C14)"""
    out = []
    # on the mapped parameter
    inline = ["Clone", "Clone + Copy", "'static", "'a", "'a + Clone", "?Sized", "Tr + ?Sized", "Tr1<u8>", "Tr1<T>", "Tr1<U>", "Tr1<[T; 2]>",
              "Tr1<fn(T) -> U>", "Tr1<&'static T> + 'static", "As", "As<X = u8>", "As<X = U>", "As<X: Clone>", "As<X = Option<T>>", "Iterator<Item = T>", "for<'x> TrL<'x>", "TrL<'a>", "TrN<N>", "TrN<3>",
              "TrN<{ 1 + 1 }>", "(Clone)", "(?Sized)", "(for<'x> TrL<'x>)", "::core::clone::Clone", "std::fmt::Debug + std::fmt::Display", "Fn(u8) -> U",
              "Fn(T) -> T", "for<'x> Fn(&'x T) -> &'x U", "Clone + Clone", "Send + Sync + Unpin", "Into<Vec<T>>", "From<U>", "PartialEq<U>", "PartialOrd", "Ord",
              "super::sup::Tr", "crate::sup::Tr1<(T, U)>", "IntoIterator<Item = (T, U), IntoIter = std::vec::IntoIter<(T, U)>>", "'static + Clone + Tr", ""]
    for b in inline:
        colon = "T:" + (" " + b if b else "")
        text = f"@D@\n    pub struct D<'a, {colon}, U, const N: usize>(Option<T>, PhantomData<&'a [u8; N]>, PhantomData<U>);"
        if "?Sized" in b:
            text = f"@D@\n    #[funcmap(params(T))]\n    pub struct D<'a, {colon}, U, const N: usize>(Box<T>, PhantomData<&'a [u8; N]>, PhantomData<U>);"
        out.append(Def(text.replace("pub struct", "#[funcmap(params(T))]\n    pub struct") if "#[funcmap" not in text else text, "D", [0], note="T: " + b))
        # the same bound in a where clause
        if b and not b.startswith("(?"):
            w = text.replace(colon, "T").replace(", PhantomData<U>);", f", PhantomData<U>) where T: {b};")
            w = w if "#[funcmap" in w else w.replace("pub struct", "#[funcmap(params(T))]\n    pub struct")
            out.append(Def(w, "D", [0], note="where T: " + b))
    # on another parameter
    for b in ["Tr1<T>", "Tr1<T> + Clone", "Tr1<Vec<T>>", "Fn(T)", "Fn(T) -> u8", "FnMut(&T)", "?Sized", "Tr1<T> + ?Sized", "'a", "Clone + 'static", "PartialEq<T>", "for<'x> Fn(&'x T) -> &'x u8",
              "Into<Option<T>>", "Tr1<fn(T)>", "Tr1<dyn Fn(T)>", "From<T> + Into<T>", "Tr1<T> + Tr1<u8>"]:
        f = "Box<U>" if "?Sized" in b else "U"
        out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<'a, T, U: {b}>(Option<T>, {f}, PhantomData<&'a u8>);", "D", [0], note="U: " + b))
        out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<'a, T, U>(Option<T>, {f}, PhantomData<&'a u8>) where U: {b};", "D", [0], note="where U: " + b))
    for b in ["Tr1<T>", "PartialEq<T>", "Into<T>"]:
        out.append(Def(f"@D@\n    pub struct D<T, U: {b}>(Option<T>, Vec<U>);", "D", [0, 1], note="both, U: " + b))
        out.append(Def(f"@D@\n    pub struct D<T: {b.replace('T>', 'U>')}, U: {b}>(Option<T>, Vec<U>);", "D", [0, 1], note="mutual, U: " + b))
    # where predicates of other shapes
    preds = ["Vec<T>: Clone", "[T; 2]: Copy", "(T, U): Tr", "Box<T>: Tr", "Option<Vec<T>>: Tr1<T>", "u8: Into<T>", "u8: Tr1<T>", "&'a T: Tr, T: 'a", "for<'x> &'x T: Tr", "for<'x> &'x T: Tr1<&'x U>",
             "fn(T) -> U: Tr", "dyn Tr1<T>: Tr", "*const T: Tr", "<T as As>::X: Clone, T: As", "T::X: Clone, T: As", "T: As, T::X: Tr1<T>", "T: As2, <T as As2>::X: Tr1<<T as As2>::Y>", "'a: 'a", "T: 'a, U: 'a",
             "U: Tr, T: Tr", "T: Clone, T: Tr, T: Clone", "[U; N]: Tr", "[(); N]: Tr", "[T; N]: Copy", "u8: Tr1<U>", "String: Clone", "for<'x, 'y> &'x U: TrL<'y>", "S1<T>: Tr, S2<T, U>: Tr",
             "T: Tr,", "Self: Tr", "Self: Tr1<T>", "T: Tr1<Self>", "U: Tr1<Self>", "Option<Self>: Tr", "Vec<T>: Clone + 'a", "Box<dyn Fn(T) -> U + 'a>: Tr", "T: Sized", "Option<T>: Sized",
             "Vec<Vec<T>>: Tr1<Vec<U>> + Tr", "T: Tr1<Box<dyn Tr1<T> + 'a>>", "K1<T, N>: Tr", "Vec<u8>: Extend<T>", "Vec<T>: FromIterator<U>", "(T): Tr", "crate::sup::S1<T>: super::sup::Tr",
             "T: Tr, for<'x> T: TrL<'x>", "for<'x> T: TrL<'x>, T: Tr, for<'y> T: TrL<'y>", "Vec<T>: Tr, for<'x> Vec<T>: TrL<'x>", "for<'x> Vec<T>: TrL<'x>, for<'y, 'z> Vec<T>: Tr1<&'y T> + Tr1<&'z U>", "for<'x> U: TrL<'x> + Tr1<&'x T>, U: Tr1<T> + Tr",
             "u8: Tr1<T>, for<'x> u8: Tr1<&'x T>, u8: Tr1<[T; 2]>", "for<'x> (&'x T, U): Tr, for<'x> (&'x T, U): Tr1<T>, for<'y> (&'y T, U): Tr1<&'y U>", "T: TrL<'a>, for<'a1> T: TrL<'a1>, T: TrL<'static>",
             "T: Tr1<[u8; LEN]>", "T: IntoIterator, T::Item: Clone, T::IntoIter: Iterator<Item = T::Item>", "for<'x> T: TrL<'x>", "for<'x> T: Fn(&'x U) -> &'x U",
             "Self: As, <Self as As>::X: Clone", "Self: As, T: Tr1<<Self as As>::X>, <Self as As>::X: Tr1<Self>", "U: As, Self: Tr1<U::X> + Tr1<<U as As>::X>", "for<'x, 'y, 'z> fn(&'x T, &'y U, &'z u8): Tr", "for<'x, 'y, 'z, 'w> T: Tr1<(&'x u8, &'y U, &'z T, &'w [Self; 2])>",
             "for<'x> <Self as As>::X: TrL<'x>, Self: As<X = T>", "Self: 'a, &'a Self: Tr", "for<'x> Option<&'x Self>: Tr1<Box<Self>>, [Self; N]: Tr, fn(Self) -> Self: Tr, (Self, T): Tr1<dyn Tr1<Self>>"]
    for p in preds:
        need = ""
        out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<'a, T, U, const N: usize>(Option<T>, PhantomData<&'a u8>, PhantomData<U>) where {p}{need}{'' if p.endswith(',') else ','};".replace(",,", ","), "D", [0], note="where " + p))
        out.append(Def(f"@D@\n    #[funcmap(params(T))]\n    pub enum D<'a, T: Own, U: Own, const N: usize> where {p.rstrip(',')}{need} {{ A(PhantomData<&'a u8>), B {{ x: Vec<T> }}, C(PhantomData<U>) }}", "D", [0], note="enum where " + p))
        if "Self" not in p:
            out.append(Def(f"@D@\n    #[funcmap(params(T, U))]\n    pub struct D<'a, T, U, const N: usize>(Option<T>, PhantomData<&'a u8>, S1<U>) where {p.rstrip(',')}{need};", "D", [0, 1], note="both, where " + p))
    # fields that are sized only for some arguments
    out += [
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: ?Sized>(T, Box<U>);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: ?Sized>(T, (U));", "D", [0]),
        Def("macro_rules! mk { ($n:ident, $u:ty) => { @D@ #[funcmap(params(T))] pub struct $n<T, U: ?Sized>(T, $u); } }\n    mk!(D, U);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: AsU<u8>>(T, U::X);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: AsU<u8>>(T, <U as AsU<u8>>::X);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: AsU<[u16; 3]>> { a: Vec<T>, b: (<U as super::sup::AsU<[u16; 3]>>::X) }", "D", [0]),
        Def("macro_rules! mk { ($n:ident, $u:ty) => { @D@ #[funcmap(params(T))] pub struct $n<T, U: AsU<Option<u8>>>(T, $u); } }\n    mk!(D, <U as AsU<Option<u8>>>::X);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: ?Sized>(T, U);", "D", [0]),
            Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T: ?Sized, U: ?Sized>(PhantomData<T>, &'static U) where U: 'static;", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T: ?Sized>(u8, T);", "D", [0]),
        Def("@D@\n    pub struct D<T: ?Sized>(PhantomData<T>);", "D", [0]),
        Def("@D@\n    pub struct D<T>(T) where T: ?Sized;", "D", [0]),
        # other spellings of a parameter: raw identifiers, and types and bounds passed through declarative macros
        Def("@D@\n    pub struct D<T>(PhantomData<T>) where r#T: ?Sized;", "D", [0], note="r#T: ?Sized"),
        Def("@D@\n    pub struct D<r#T>(PhantomData<T>, Option<Box<r#T>>) where T: Own, r#T: ?Sized + Clone;", "D", [0]),
        Def("@D@\n    pub enum D<T: ?Sized, r#U: ?Sized> where r#U: Own, U: Tr1<r#T>, r#T: Tr1<U> { A(PhantomData<r#T>), B(Box<U>) }", "D", [0, 1]),
        Def("@D@\n    #[funcmap(params(r#T))]\n    pub struct D<T, U>(r#T, PhantomData<r#U>) where r#T: Sized, r#U: ?Sized, [T; 2]: Clone, [r#T; 2]: Clone;", "D", [0]),
        Def("macro_rules! mk { ($n:ident, $u:ty) => { @D@ pub struct $n<T>(PhantomData<T>) where $u: ?Sized; } }\n    mk!(D, T);", "D", [0], note="$u: ?Sized"),
        Def("macro_rules! mk { ($n:ident, $u:ty) => { @D@ pub struct $n<T>(PhantomData<T>) where $u: ?Sized; } }\n    mk!(D, r#T);", "D", [0]),
        Def("macro_rules! inner { ($n:ident, $u:ty) => { @D@ pub enum $n<T> where $u: ?Sized + Own { A(PhantomData<$u>) } } }\n    macro_rules! mk { ($n:ident, $u:ty) => { inner!($n, $u); } }\n    mk!(D, T);", "D", [0]),
        Def("macro_rules! mk { ($n:ident, $u:ty, $v:ty) => { @D@ #[funcmap(params(T))] pub struct $n<T, U>(T, PhantomData<$v>) where $u: Clone + Tr1<$v>, $v: ?Sized + Tr1<$u>, Option<$u>: Tr1<$u>, [$u; 2]: Copy; } }\n    mk!(D, T, U);", "D", [0]),
        Def("macro_rules! mk { ($n:ident, $b:path, $c:path, $l:lifetime) => { @D@ pub struct $n<$l, T: $b + $l>(Option<T>, PhantomData<&$l u8>) where T: $c, Vec<T>: $b, T: $l; } }\n    mk!(D, Tr1<T>, core::clone::Clone, 'q);", "D", [0]),
        Def("macro_rules! mk { ($n:ident, $t:ident: $($b:tt)*) => { @D@ pub struct $n<$t: $($b)*>(Vec<$t>, PhantomData<$t>) where $t: $($b)*; } }\n    mk!(D, Q: Tr1<Q> + Clone + Fn(&Q) -> Q);", "D", [0]),
        Def("macro_rules! mk { ($n:ident, $s:ty) => { @D@ pub struct $n<T>(Option<T>, PhantomData<$s>) where $s: Tr, Option<$s>: Clone; } }\n    mk!(D, Self);", "D", [0]),
        Def("@D@\n    pub enum D<'a, T: 'a + Clone, const N: usize> where [T; N]: Copy { A([T; N]), B(&'a u8), C }", "D", [0]),
        Def("@D@\n    pub struct D<'a, 'b, T>(&'a u8, &'b u8, T) where 'a: 'b, T: 'a + 'b;", "D", [0]),
        Def("@D@\n    pub struct D<T>(Option<T>, PhantomData<Self>);", "D", [0], note="Self in a field"),
        Def("@D@\n    pub struct D<T: As<X = u8>>(Option<T>) where <T as As>::X: Clone;", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T: As>(Vec<T>, PhantomData<u8>) where T::X: As, <T::X as As>::X: Clone;", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: As>(T, U::X, <U as As>::X, Option<U::X>);", "D", [0]),
        Def("@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: As>(T, Result<T, U::X>);", "D", [0]),
    ]
    return out


def unsized_group():
    """last fields that are unsized for some arguments: known findings, not for the other checks"""
    return [Def(f"@D@\n    #[funcmap(params(T))]\n    pub struct D<T, U: ?Sized>(T, {t});", "D", [0]) for t in ("(u8, U)", "Uns<U>")]


HEAD = "#![allow(warnings)]\n#![recursion_limit = \"256\"]\n"


def foreign_group():
    """helper attributes of another derive macro, everywhere"""
    o = "#[derive(fv_other::Other)]"
    out = []
    for at in ("#[other]", "#[other(T)]", "#[other = 3] #[other]"):
        for pre in (f"{o} @D@", f"@D@ {o}", f"{o} {at} @D@ {at}"):
            out.append(Def(f"{pre} pub struct D<{at} T>(T);", "D", [0]))
            out.append(Def(f"{pre} pub struct D<{at} 'a, T: 'a>(T, PhantomData<&'a u8>);", "D", [0]))
            out.append(Def(f"{pre} pub struct D<T, {at} const N: usize = 3>([T; N]);", "D", [0]))
            out.append(Def(f"{pre} pub struct D<T, {at} U: Clone = u8>(T, {at} Option<U>);", "D", [0, 1]))
            out.append(Def(f"{pre} #[funcmap(params(U))] pub enum D<{at} 'a, {at} T, {at} U: Clone, {at} const N: usize> where T: 'a {{ {at} A({at} U, [PhantomData<&'a T>; N]), {at} B {{ {at} x: Option<U> }} }}", "D", [1]))
    return out


def crate(defs, derive="#[derive(funcmap::FuncMap, funcmap::TryFuncMap)]", head=HEAD, sup=SUP, uses=USES):
    """source text and line ranges of a witness crate"""
    text = head + sup
    lines = {}
    n = text.count("\n") + 1
    for d in defs:
        body = f"mod {d.mod} {{\n{uses}    {d.text.replace('@D@', derive).replace('@@', d.mod)}\n}}\n"
        k = body.count("\n")
        lines[d.mod] = (n, n + k - 1)
        text += body
        n += k
    return text, lines
