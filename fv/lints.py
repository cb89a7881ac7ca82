"""Warnings that appear only with the derive (C22)."""
import os
import re

from . import gen, wit
from .common import CACHE, Broken, Report, env, project_toolchain, put, sh
from .derive import SRC, first_line, group, legal, number, samples, seed, tier, where, plain
from .gen import Def

EDITIONS = ("2015", "2018", "2021", "2024")
# lints about the whole crate, the build or the compiler itself
CRATE = {"linker-messages", "unused-crate-dependencies", "unstable-features", "unknown-lints", "warnings", "missing-docs-in-private-items"}

SPECIAL = """
#[deprecated] pub struct Old<T>(pub T); @D@ pub struct D<T>(Old<T>, T);
#[deprecated] pub struct Old; @D@ pub struct D<T>(Old, T, Option<Old>, Result<T, Old>);
#[deprecated] pub struct Old; @D@ pub struct D<T: Tr1<Old>>(T) where Vec<T>: Tr1<Old>;
#[deprecated] pub trait OldTr {} @D@ pub struct D<T: OldTr>(T) where Option<T>: OldTr;
#[deprecated] pub const OLD: usize = 2; @D@ pub struct D<T>([T; OLD], K1<T, OLD>);
#[deprecated] pub type OldA<T> = Option<T>; @D@ pub struct D<T>(OldA<T>, Vec<OldA<T>>);
#[deprecated] pub mod old { pub struct X<Y>(pub Y); } @D@ pub struct D<T>(old::X<T>);
pub mod m { #[deprecated(since = "1", note = "x")] pub struct X<Y>(pub Y); } @D@ pub enum D<T> { A(m::X<T>), B { x: Vec<m::X<T>> } }
#[deprecated] @D@ pub struct D<T>(T);
@D@ #[deprecated] pub enum D<T> { A(T), B { x: T } }
@D@ pub enum D<T> { #[deprecated] A(T), B { #[deprecated] x: T, y: u8 } }
@D@ pub struct D<T> { #[deprecated(note = "y")] x: T, #[deprecated] y: u8, z: Option<T> }
@D@ pub struct D<T>(#[deprecated] T, #[deprecated] Vec<u8>);
#[deprecated] pub struct D0<T>(pub T); @D@ #[deprecated] pub struct D<T>(D0<T>);
@D@ #[must_use] pub struct D<T>(T, Result<T, T>);
#[must_use] pub struct Mu<T>(pub T); @D@ pub enum D<T> { A(Mu<T>) }
@D@ pub struct d<t>(t, Option<t>);
@D@ pub struct lower_case<t_param, const n: usize>([t_param; n]);
@D@ pub enum e_<t> { a(t), b_c { x: t } }|e_
@D@ pub struct D<T> { X: T, fooBar: Option<T>, camelCase: u8 }
@D@ pub enum D<T> { A { X: T, fooBar: u8 }, B_C(T), __D }
@D@ pub struct D__<__T>(__T, u8);|D__
@D@ pub struct DD_Dd<T_>(T_);|DD_Dd
@D@ pub struct D<'A, T: 'A>(T, &'A u8);
@D@ pub struct D<'aB, T>(T, &'aB u8) where T: 'aB;
@D@ pub struct D<r#type>(r#type, Option<r#type>);
@D@ pub struct D<T> { r#type: T, r#gen: u8, r#async: Option<T>, r#dyn: u8, r#try: T, r#await: u8, r#union: u8, r#safe: u8, r#raw: u8, r#static: T }
@D@ pub enum D<T> { r#Gen(T), r#Self_ { r#fn: T } }
@D@ pub struct D<T>(T) where T: Drop;
@D@ pub struct D<T: Drop>(Vec<T>);
@D@ pub struct D<T: Drop + Clone>(Vec<T>) where Vec<T>: Drop, Option<T>: Drop;
@D@ pub struct D<T>(T) where T: Copy + Drop;
@D@ pub struct D<T>(T) where for<'a> &'a dyn Drop: Copy;
@D@ pub struct D<T>(T, Box<dyn Drop>);
@D@ pub struct D<T>(T) where u8: Clone;
@D@ pub struct D<T>(T) where u8: Copy, Vec<u8>: Clone, for<'a> &'a u8: Copy, String: Into<String>, i32: 'static;
@D@ pub struct D<'a, T>(T, &'a u8) where &'a u8: Clone, 'a: 'a, 'static: 'a;
@D@ pub struct D<T>(T) where Vec<T>: Clone, T: Clone, T: Clone, T: Clone + Clone;
@D@ pub struct D<T: Clone + Clone>(T) where T: Clone;
@D@ pub struct D<T: Sized>(T) where T: Sized, Option<T>: Sized, u8: Sized;
@D@ pub struct D<T: ?Sized>(Box<u8>, std::marker::PhantomData<T>);
@D@ pub struct D<T>(T) where T: std::clone::Clone + ::std::marker::Send;
@D@ pub struct D<T>(std::option::Option<T>, std::vec::Vec<T>, std::result::Result<T, std::string::String>);
@D@ pub struct D<T>(::std::option::Option<T>, ::std::vec::Vec<T>, ::std::result::Result<T, ::std::string::String>) where T: ::std::clone::Clone;
@D@ pub struct D<T>(super::@@::Own<T>, self::Own<T>) where T: self::OwnTr + super::@@::OwnTr; pub struct Own<T>(pub T); pub trait OwnTr {}
@D@ pub struct D<T>(T, (T), ((u8)), (Option<T>), Vec<(T)>, ((((T, u8)))));
@D@ pub struct D<T>([T; (2)], [T; { 2 }], K1<T, { 3 }>, K1<T, 3>, [(T); 1 + (1)]);
@D@ pub struct D<T>(T) where (T): Clone, (Vec<(T)>): Clone, T: (Copy);
@D@ pub struct D<T,>(T,) where T: Clone,;
@D@ pub struct D<T>(T) where;
@D@ pub struct D<T>(T) where T:;
@D@ pub struct D<T:>(T) where T: Clone +, Vec<T>:;
@D@ pub struct D<'a, T>(T, &'a u8) where 'a:, T: 'a +;
@D@ pub struct D<T>(T, Box<for<'a> fn(&'a u8)>) where for<> T: Clone;
@D@ pub struct D<'a, T>(T, std::borrow::Cow<'a, str>, L1<'a, T>) where for<'b> T: TrL<'b>, T: 'a;
@D@ pub struct D<'a, T: 'a>(T, &'a u8) where T: 'a;
@D@ pub struct D<'a, 'b: 'a, T: 'b>(T, &'a &'b u8);
@D@ pub struct D<'a, 'b, T>(T, &'a &'b u8) where 'b: 'a, T: 'a + 'b;
@D@ pub struct D<T: 'static>(T, &'static str) where T: 'static, Vec<T>: 'static;
@D@ pub struct D<T>(T, fn(&u8) -> &u8, Box<dyn Fn(&u8) -> &u8>);
@D@ pub struct D<T>(pub T, pub(crate) u8, pub(self) u8, pub(super) Option<T>);
@D@ struct D<T>(T, u8);
@D@ struct D<T> { x: T, y: u8, _z: u8 }
@D@ enum D<T> { A(T), B { x: T }, C }
@D@ pub(crate) enum D<T> { A(T), _B { _x: T }, C }
struct Priv<T>(T); trait PrivTr {} @D@ pub struct D<T: PrivTr>(Priv<T>) where Option<T>: PrivTr;
mod pr { pub struct X<T>(pub T); pub trait PrTr {} } @D@ pub struct D<T: pr::PrTr>(pr::X<T>);
trait PrivTr { type Q; } @D@ struct D<T: PrivTr<Q = u8>>(T);
struct Priv; @D@ pub struct D<T = Priv>(T, Priv);
@D@ pub struct D<T, const N: usize = 2>([T; N]);
@D@ pub struct D<T = u8>(T);
@D@ #[repr(C)] pub struct D<T>(T, u8);
@D@ #[repr(transparent)] pub struct D<T>(T);
@D@ #[repr(u8)] pub enum D<T> { A(T) = 3, B = 7 }
@D@ #[non_exhaustive] pub struct D<T>(T);
@D@ #[non_exhaustive] pub enum D<T> { #[non_exhaustive] A(T), #[non_exhaustive] B { x: T } }
@D@ pub enum D<T> { A(T, [u64; 64]), B(u8), C }
@D@ pub enum D<T> { A(T), B(std::convert::Infallible), C { x: Void } } pub enum Void {}
@D@ pub enum D<T> { A(T, Void) } pub enum Void {}
@D@ pub struct D<T>(T, Void); pub enum Void {}
@D@ pub struct D<T>(T, std::convert::Infallible, Vec<std::convert::Infallible>);
@D@ pub struct D<T>(std::marker::PhantomData<T>);
@D@ pub struct D<T>(std::marker::PhantomData<T>, ());
@D@ pub struct D<T>(T, ()) where (): Clone;
@D@ pub struct D<T> { x: T, }
@D@ pub struct D<T>(T, *const u8, *mut u8, std::cell::UnsafeCell<u8>, std::cell::Cell<T>);
@D@ pub struct D<T>(T, std::rc::Rc<u8>, std::sync::MutexGuard<'static, u8>);
@D@ pub struct D<T>(std::cell::Cell<T>, std::cell::RefCell<T>, std::sync::Mutex<T>, std::sync::RwLock<T>);
@D@ pub struct D<K: Ord, V>(std::collections::BTreeMap<K, V>, std::collections::BTreeSet<K>, std::collections::LinkedList<V>, std::collections::BinaryHeap<K>);|D|0 1
@D@ pub struct D<K: Eq + std::hash::Hash, V>(std::collections::HashMap<K, V>, std::collections::HashSet<K>);|D|0 1
@D@ pub struct D<T>(T, ) where T: Iterator<Item = u8>, <T as Iterator>::Item: Clone, T::Item: Copy;
@D@ #[funcmap(params(T))] pub struct D<T, U: Iterator>(T, U, U::Item, <U as Iterator>::Item, Option<<U as std::iter::Iterator>::Item>);
@D@ pub struct D<A, B, C, E, F>(A, B, C, E, F);|D|0 1 2 3 4
@D@ #[funcmap(crate = "::funcmap")] pub struct D<T>(T);
@D@ #[funcmap(params(T,),)] pub struct D<T, U>(T, U);
@D@ #[cfg_attr(all(), doc = "x")] #[doc(hidden)] pub struct D<T> { #[doc(hidden)] #[cfg_attr(all(), allow(unused))] x: T }
@D@ pub enum D<#[cfg(all())] T, #[allow(unused)] U> { #[cfg(all())] A(#[cfg(all())] T), #[cfg(any())] B(U), C(U) }|D|0 1
@D@ pub struct D<T, #[allow(non_upper_case_globals)] const n: usize>([T; n]);
macro_rules! ty { ($t:ty) => { $t } } @D@ pub struct D<T>(T) where T: Tr1<ty!(u8)>, Vec<T>: Tr1<ty!((u8))>;
macro_rules! mk { ($n:ident, $t:ident) => { @D@ pub struct $n<$t>($t, Option<$t>); } } mk!(D, T);
macro_rules! mk { ($n:ident<$($t:ident),*>) => { @D@ pub struct $n<$($t),*>($($t),*); } } mk!(D<T, U>);|D|0 1
macro_rules! mk { ($t:ty, $p:path, $($b:tt)*) => { @D@ pub struct D<T>(T, $t, Option<$t>) where T: $p, Vec<T>: $($b)*; } } mk!(u8, Clone, Clone + Send);
pub fn f() { @D@ pub struct D<T>(T); }
pub fn f() { struct In<T>(T); @D@ struct D<T>(In<T>, u8); }
pub const X: () = { @D@ pub struct D<T>(T, Option<T>); };
pub fn f() { #[allow(unused)] use std::option::Option as Opt; @D@ pub struct D<T>(Opt<T>); }
pub fn f<Q>() { @D@ pub struct D<T>(T); }
pub struct Outer; impl Outer { pub fn f(&self) { @D@ pub struct D<T>(T, Vec<T>); } }
use std::option::Option as MyOpt; @D@ pub struct D<T>(MyOpt<T>);
use std::option; @D@ pub struct D<T>(option::Option<T>);
use std::collections::BTreeMap as Map; @D@ pub struct D<V>(Map<u8, V>, Vec<Map<u8, V>>) where Map<u8, V>: Clone;
#[allow(unused_imports)] use super::sup::*; @D@ pub struct D<T: Tr>(S1<T>);
@D@ pub struct Dé<Tñ>(Tñ);|Dé
@D@ pub struct D<T> { é: T }
@D@ pub struct D<T>(T) where T: Clone, Self: Sized;
@D@ pub struct D<T: Clone>(T, Option<Box<u8>>) where Self: Clone;
@D@ pub struct D<T>(T, [u8; std::mem::size_of::<u8>()], [u8; { let x = 2; x }]);
@D@ pub struct D<T>([T; { let X = 2; X }], [T; { const y: usize = 2; y }], [T; { #[allow(unused)] let z = 1; 2 }]);
@D@ pub struct D<T>([T; if true { 1 } else { 2 }], [T; match 3u8 { 3 => 1, _ => 2 }], [T; { loop { break 3 } }]);
@D@ pub struct D<T>([T; 2usize as usize], [T; (1 as usize) as usize], [T; -(-2isize) as usize]);
@D@ pub struct D<T>(Vec<[T; 3 & 1]>, [T; 4usize.pow(1)], [T; usize::MAX - usize::MAX + 1], [T; core::mem::size_of::<u16>()]);
@D@ pub struct D<T>(T, unsafe fn(), extern "C" fn(), unsafe extern "C" fn(u8) -> u8, extern fn());
@D@ pub struct D<T>(T, dyn_box::B); pub mod dyn_box { pub type B = Box<dyn Send + Sync + 'static>; }
@D@ pub struct D<T>(T, Box<dyn Fn(u8) -> u8 + Send + 'static>, &'static (dyn Send + 'static));
@D@ pub struct D<T: Fn(u8) -> u8>(T) where T: FnOnce(u8) -> u8, T: FnMut(u8) -> u8;
@D@ pub struct D<T>(T) where T: for<'a> Fn(&'a u8) -> &'a u8, for<'a> T: Fn(&'a u8) -> &'a u8;
"""
OLDER = """
@D@ pub struct D<T>(T, Box<Send>, &'static Send);
@D@ pub struct D<T>(T) where Box<Send>: Sized, T: Tr1<Send>;
pub trait Obj<X> {} @D@ pub struct D<T>(T, Box<Obj<u8>>) where Box<Obj<u8>>: Sized, T: Tr1<Obj<u8> + 'static>;
"""
OLDEST = """
@D@ pub struct D<T>(::sup::S1<T>, T) where T: ::sup::Tr;
@D@ pub struct D<T>([T; ::sup::LEN], K1<T, { ::sup::LEN }>) where ::sup::S1<T>: Clone;
pub mod q { use sup::*; @D@ pub struct D<T>(S1<T>, ::sup::S2<u8, ::sup::S1<T>>) where T: ::sup::Tr1<::sup::S1<T>>; }
@D@ pub struct D<T>(T, ::std::cell::Cell<T>) where T: ::std::clone::Clone;
"""


def special(text):
    out = []
    for l in text.strip().splitlines():
        t, *r = l.split("|")
        out.append(Def(t.strip(), "D", [0], note=first_line(Def(t, "D", [0]))))
    return out


def lints(tc):
    p = sh(["rustc", "+" + tc, "-W", "help"], env=env())
    body = p.stdout.split("Lint checks provided by rustc:")[1].split("Lint groups")[0]
    out = re.findall(r"^\s+([a-z0-9-]+)\s+(allow|warn|deny)\s", body, re.M)
    if len(out) < 100:
        raise Broken("cannot list rustc's lints")
    return [n for n, _ in out if n not in CRATE]


def warnings(args):
    tag, k, defs, tc, ed, ls, derive, clippy, head = args
    name = f"fv_lint_{tag}_{k}"
    todo = list(defs)
    bad = {}
    for _ in range(12):
        src, lines = gen.crate(todo, derive=derive, head=head + HEAD, sup=sup(ed), uses=USES)
        path = os.path.join(CACHE, "wit-src", name + ".rs")
        put(path, src)
        ok, diags, _ = wit.compile(tc, path, name, edition=ed, extra=(["-Aclippy::all"] if clippy else []) + [f"-W{l}" for l in ls], clippy=clippy)
        per = {}
        errs = False
        for x in diags:
            code = (x.get("code") or {}).get("code")
            if x["message"].startswith("aborting") or re.match(r"\d+ warnings? emitted", x["message"]) or code == "unknown_lints":
                continue
            l = where(x)
            m = next((m for m, (a, b) in lines.items() if l is not None and a <= l <= b), None)
            if x["level"].startswith("error") and code and code.startswith("E") or x["level"].startswith("error") and not code:
                errs = True
                bad.setdefault(m, x)
            per.setdefault((m, code, x["message"]), x)
        if not errs:
            if not ok and not per:
                raise Broken(f"{path} does not compile: {diags[:2]}")
            return todo, per, bad
        if None in bad:
            raise Broken(f"{path} does not compile: {bad[None].get('rendered')}")
        todo = [d for d in todo if d.mod not in bad]
    raise Broken(f"{path} does not compile")


HEAD = "#![allow(unknown_lints, missing_docs, unused_imports, unused_macros, unused_extern_crates)]\nextern crate funcmap;\n"
USES = gen.USES


def sup(ed):
    return gen.SUP


def chunk(tag, defs, tc, ed, ls, derive, clippy, head, n=60):
    return [(tag, i // n, defs[i : i + n], tc, ed, ls, derive, clippy, head) for i in range(0, len(defs), n)]


CLIPPY = """disallowed-methods = ["funcmap::FuncMap::func_map", "funcmap::TryFuncMap::try_func_map", "funcmap::FuncMap::func_map_over", "funcmap::TryFuncMap::try_func_map_over"]
disallowed-types = ["core::option::Option", "core::result::Result", "alloc::vec::Vec", "alloc::boxed::Box", "funcmap::TypeParam", "core::marker::PhantomData"]
"""

# one violation each, whatever the definition
KNOWN = {
    "unused_parens": "unnecessary parentheses around type",
    "unused_braces": "unnecessary braces around const expression",
    "non_snake_case": "lifetime .. should have a snake case name",
    "non_upper_case_globals": "const parameter .. should have an upper case name",
    "missing_abi": "extern declarations without an explicit ABI are deprecated",
}


def compare(rep, tag, defs, tc, ed, ls, allow, stats, clippy=None, head=""):
    number(defs)
    twins = [Def(plain(d.text), d.name, d.sel) for d in defs]
    number(twins)
    al = f"#[allow({', '.join(l.replace('-', '_') for l in ls)}, warnings)] " if allow else ""
    base, seen, gone = set(), {}, {}
    for _, per, bad in wit.parallel(warnings, chunk(tag + "t", twins, tc, ed, ls, al, clippy, head)):
        base |= set(per)
        gone.update(bad)
    legal = [d for d in defs if d.mod not in gone]
    if os.environ.get("FV_DEBUG"):
        for d in defs:
            if d.mod in gone:
                print("twin:", ed, d.note[:80], gone[d.mod]["message"][:100])
    new = {}
    for _, per, bad in wit.parallel(warnings, chunk(tag + "d", legal, tc, ed, ls, f"{al}#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] ", clippy, head)):
        seen.update(per)
        new.update(bad)
    by = {d.mod: d for d in defs}
    for m, x in new.items():
        d = by[m]
        rep.violation(f"{ed} error: {first_line(d)}", f"in edition {ed} (rustc {tc}) the derive does not compile for `{first_line(d)}`: {x['message']}", SRC, {"definition": d.text, "error": x.get("rendered")})
    for (m, code, msg), x in seen.items():
        if (m, code, msg) in base:
            continue
        d = by.get(m)
        name = first_line(d) if d else "the crate"
        if KNOWN.get(code) in (re.sub("`[^`]*`", "..", msg), msg.replace("`", "")):
            rep.violation(f"{code}: {KNOWN[code]}", f"an allowed lint fires again on generated code ({code}: {KNOWN[code]}): it is not in the list of lints the derive allows", SRC, {"definition": d and d.text, "error": x.get("rendered")})
            continue
        rep.violation(f"{ed} {code}: {name}", f"in edition {ed} (rustc {tc}) the derive adds a warning ({code}: {msg}) for `{name}`", SRC, {"definition": d and d.text, "error": x.get("rendered")})
    stats["n"] += len(legal)
    stats["pairs"] += len(legal) * len(ls)
    return len(legal)


def c22():
    rep = Report("C22", "exploration")
    stats = dict(n=0, pairs=0)
    tcs = [project_toolchain()] + (["stable"] if tier() else [])
    nl = {}
    lots = [Def(d.text, d.name, d.sel) for g in (gen.types_group, gen.bounds_group, gen.generics_group) for d in g(tier(), seed()) if "crate =" not in d.text]
    for tc in tcs:
        ls = lints(tc)
        nl[tc] = len(ls)
        wit.artifacts(tc)
        for i, ed in enumerate(EDITIONS):
            defs = special(SPECIAL) + (special(OLDER) if ed < "2021" else []) + (special(OLDEST) if ed == "2015" else [])
            step = 4 if tier() else 24
            defs += lots[i * 3 % step :: step]
            compare(rep, f"a{ed}", defs, tc, ed, ls, True, stats)
            compare(rep, f"b{ed}", defs, tc, ed, ls, False, stats)
    # the two lints of clippy that concern what generated code names
    conf = os.path.join(CACHE, "clippy")
    os.makedirs(conf, exist_ok=True)
    put(os.path.join(conf, "clippy.toml"), CLIPPY)
    wit.artifacts("stable")
    compare(rep, "c", special(SPECIAL) + lots[::24], "stable", "2021", ["clippy::disallowed_methods", "clippy::disallowed_types"], True, stats, conf)
    # a lint that needs an unstable feature
    wit.artifacts("nightly")
    compare(rep, "f", special(SPECIAL) + lots[::24], "nightly", "2021", ["trivial-bounds"], True, stats, head="#![feature(trivial_bounds)]\n")
    if stats["n"] < 1000:
        raise Broken("too few definitions are legal")
    rep.coverage = {
        "explanation": f"{stats['n']} type-checks of definitions with and without the derive, in editions {', '.join(EDITIONS)}, with every stable lint of the compiler enabled ({nl}), once with all lints allowed on the definition itself (so that only generated code can warn) and once without. Every warning that appears only with the derive is a violation.",
        "evaluations": stats["n"],
        "obligations": stats["pairs"],
        "samples": samples(special(SPECIAL)),
    }
    rep.assumptions = ["rustc's lints", "the enumerated definitions stand for the macro's handling of definitions of that form"]
    return rep.finish()


CHECKS = {"C22": c22}
