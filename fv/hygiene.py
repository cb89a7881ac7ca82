"""Names the user's code can choose (C15) and the path to funcmap (C16)."""
import os
import random
import re

from . import gen, wit
from .common import Broken, Report
from .derive import SRC, TRUST, analyse, first_line, legal, samples, seed, tier
from .gen import Def

DERIVE = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]"

# {L}: the letter. Items before @D@ belong to the user's module.
TEMPLATES = {
    "other parameter": "@D@ #[funcmap(params(T))] pub struct D<T, {L}>(T, {L}, Option<{L}>);|0",
    "other parameter, first": "@D@ #[funcmap(params(T))] pub enum D<{L}, T> { X(T), Y { x: ({L}, T) } }|1",
    "two mapped parameters": "@D@ pub struct D<T, {L}>(T, Result<{L}, T>, Vec<{L}>);|0 1",
    "mapped parameter": "@D@ pub struct D<{L}>({L}, Vec<{L}>, ({L}, u8));|0",
    "mapped raw parameter": "@D@ pub struct D<r#{L}>({L}, Vec<r#{L}>);|0",
    "other raw parameter": "@D@ #[funcmap(params(T))] pub struct D<T: Tr1<{L}>, r#{L}>(T, {L});|0",
    "struct name": "@D@ pub struct {L}<T>(T, Option<T>);|0",
    "enum name": "@D@ pub enum {L}<T> { {L}(T), X { {L}: T } }|0",
    "type of a field": "pub struct {L}; @D@ pub struct D<T>(T, {L}, Option<{L}>, Result<{L}, T>, [{L}; 2]);|0",
    "raw type of a field": "pub struct {L}; @D@ pub struct D<T>(T, r#{L}, Result<r#{L}, T>);|0",
    "type alias": "pub type {L} = u8; @D@ pub struct D<T>(T, {L}, Result<{L}, T>);|0",
    "nested type": "pub struct {L}<X>(X); @D@ pub struct D<T>({L}<T>, Option<{L}<T>>, {L}<{L}<T>>);|0",
    "nested type, path": "pub struct {L}<X>(X); @D@ pub struct D<T>(self::{L}<T>, Option<super::@M@::{L}<T>>);|0",
    "trait": "pub trait {L} {} @D@ pub struct D<T: {L}>(T);|0",
    "trait, where": "pub trait {L}<X> {} @D@ pub struct D<T>(T) where T: {L}<T> + {L}<u8>, Vec<T>: {L}<T>;|0",
    "trait, higher-ranked": "pub trait {L}<X> {} @D@ pub struct D<T>(T) where for<'x> &'x T: {L}<&'x T>;|0",
    "trait of another parameter": "pub trait {L}<X> {} @D@ #[funcmap(params(T))] pub struct D<T, U: {L}<T>>(T, U);|0",
    "argument of a trait": "pub struct {L}; @D@ pub struct D<T: Tr1<{L}>>(T) where Vec<T>: Tr1<[{L}; 2]>;|0",
    "associated type": "pub trait Tra { type {L}; } @D@ pub struct D<T: Tra<{L} = u8>>(T);|0",
    "associated type, qualified": "pub trait Tra { type {L}; } @D@ pub struct D<T: Tra>(T) where <T as Tra>::{L}: Clone, T::{L}: Copy;|0",
    "associated type, field": "pub trait Tra { type {L}; } impl Tra for u8 { type {L} = u16; } @D@ pub struct D<T>(T, <u8 as Tra>::{L}, Result<T, <u8 as Tra>::{L}>);|0",
    "associated type of a parameter": "pub trait Tra { type {L}; } @D@ #[funcmap(params(T))] pub struct D<T, U: Tra>(T, U::{L}, Result<T, U::{L}>);|0",
    "qualified type": "pub struct {L}; impl As for {L} { type X = u8; const C: usize = 2; } @D@ pub struct D<T>(T, <{L} as As>::X, Result<T, <{L} as As>::X>);|0",
    "const parameter": "@D@ pub struct D<T, const {L}: usize>([T; {L}], K1<T, {L}>, K0<{ {L} }, T>);|0",
    "const parameter, first": "@D@ pub enum D<const {L}: usize, T> { X([T; {L}]), Y([u8; {L}]) }|1",
    "const item": "const {L}: usize = 2; @D@ pub struct D<T>([T; {L}], K1<T, {L}>, K1<T, { {L} + 1 }>, [u8; {L}]);|0",
    "function": "const fn {L}() -> usize { 2 } @D@ pub struct D<T>([T; {L}()], K1<T, { {L}() }>);|0",
    "associated const": "pub struct {L}; impl {L} { const C: usize = 2; } @D@ pub struct D<T>([T; {L}::C], K1<T, { {L}::C }>, K1<Vec<T>, { <{L}>::C }>);|0",
    "struct in a const expression": "pub struct {L} { x: usize } @D@ pub struct D<T>([T; { {L} { x: 2 }.x }], Vec<[T; { let {L} { x } = {L} { x: 3 }; x }]>);|0",
    "variable in a const expression": "@D@ pub struct D<T>([T; { let {L} = 2; {L} }], Option<[T; { const {L}: usize = 3; {L} }]>);|0",
    "item in a const expression": "@D@ pub struct D<T>([T; { struct {L}; impl {L} { const C: usize = 2; } {L}::C }], Option<K1<T, { enum {L} { X = 3 } {L}::X as usize }>>);|0",
    "cast in a const expression": "pub type {L} = usize; @D@ pub struct D<T>([T; 2u8 as {L}], [u8; { let x: {L} = 2; x }], K1<T, { std::mem::size_of::<{L}>() }>);|0",
    "closure in a const expression": "const fn id(x: usize) -> usize { x } mod {L} { pub const C: usize = 3; } @D@ pub struct D<T>([T; id({L}::C)], K1<T, { if true { {L}::C } else { match {L}::C { {L}::C => 1, _ => 2 } } }>);|0",
    "lifetime": "@D@ pub struct D<'{L}, T: TrL<'{L}> + '{L}>(T, &'{L} u8, L1<'{L}, T>);|0",
    "bound lifetime": "@D@ pub struct D<T>(T, for<'{L}> fn(&'{L} u8)) where T: for<'{L}> TrL<'{L}>, for<'{L}> &'{L} T: Tr;|0",
    "module": "pub mod {L} { pub struct X<Y>(pub Y); pub trait Tr {} pub const C: usize = 2; } @D@ pub struct D<T: {L}::Tr>({L}::X<T>, [T; {L}::C], {L}::X<u8>);|0",
    "module, self": "pub mod {L} { pub struct X<Y>(pub Y); pub trait Tr {} } @D@ pub struct D<T: self::{L}::Tr>(self::{L}::X<T>) where Vec<T>: {L}::Tr;|0",
    "last segment": "pub mod x { pub struct {L}<Y>(pub Y); pub trait {L}1 {} } @D@ pub struct D<T: x::{L}1>(x::{L}<T>);|0",
    "variant": "@D@ pub enum D<T> { {L}(T), X(Vec<T>) }|0",
    "field": "@D@ pub struct D<T> { {L}: T, x: Option<T>, y: u8 }|0",
    "macro in a bound": "macro_rules! ty { ($t:ty) => { $t } } pub struct {L}; @D@ pub struct D<T: Tr1<ty!({L})>>(T) where Vec<T>: Tr1<ty!([(u8, {L}); 2])>;|0",
    "macro in a const expression": "macro_rules! ln { ($($t:tt)*) => { $($t)* } } const {L}: usize = 2; @D@ pub struct D<T>([T; ln!({L})], K1<T, { ln!({ ({L} + 1) }) }>);|0",
    "tokens of a macro, in parentheses": "macro_rules! ln { ($($t:tt)*) => { $($t)* } } pub struct {L}; impl {L} { pub const C: usize = 2; } @D@ pub struct D<T>([T; ln!(({L}::C))]);|0",
    "tokens of a macro, in brackets": "macro_rules! sz { ([$t:ty]) => { ::std::mem::size_of::<$t>() } } pub struct {L}(u8, u8); @D@ pub struct D<T>(K1<T, { sz!([{L}]) }>);|0",
    "tokens of a macro, nested": "macro_rules! sz { ({ ([$($t:ty),*]) }) => { 0 $(+ ::std::mem::size_of::<$t>())* } } pub struct {L}(u8, u8); @D@ pub enum D<T> { X([T; sz!({ ([u8, {L}]) })]) }|0",
    "tokens of a macro, in braces": "macro_rules! sz { ({ $t:ty }) => { ::std::mem::size_of::<$t>() } } pub struct {L}(u8, u8); @D@ pub struct D<T>(K1<T, { sz!({ {L} }) }>, Option<[T; sz! { { {L} } }]>);|0",
    "tokens of a macro, braces within": "macro_rules! sz { ($({ ([$($t:ty),*]) })*) => { 0 $($(+ ::std::mem::size_of::<$t>())*)* } } pub struct {L}(u8, u8); @D@ pub enum D<T> { X(Option<[T; sz!({ ([u8]) } { ([u16, {L}]) })]>, K1<T, { sz![{ ([{L}]) }] }>) }|0",
    "tokens of a macro, nested deeply": "macro_rules! sz { ([[[[[[[[$t:ty]]]]]]]]) => { ::std::mem::size_of::<$t>() } } pub struct {L}(u8, u8); @D@ pub struct D<T>([T; sz!([[[[[[[[{L}]]]]]]]])], K1<T, { sz!([[[[[[[[{L}]]]]]]]]) }>);|0",
    "nested type, deeply": "pub struct {L}; @D@ pub struct D<T>(T, Vec<Option<Vec<Option<Vec<Option<Vec<Option<Vec<Option<Result<T, {L}>>>>>>>>>>>>);|0",
    "tokens of a macro, in a bound": "macro_rules! ty { (($t:ty)) => { $t } } pub struct {L}; @D@ pub struct D<T: Tr1<ty!(({L}))>>(T);|0",
    "macro name": "macro_rules! {L} { () => { 2 } } @D@ pub struct D<T>([T; {L}!()], K1<T, { {L}!() }>);|0",
    "crate path": "use ::funcmap as {L}; @D@ #[funcmap(crate = \"{L}\")] pub struct D<T>(T, Option<T>);|0",
    "crate path, raw": "use ::funcmap as {L}; @D@ #[funcmap(crate = \"r#{L}\")] pub struct D<T>(T, Option<T>);|0",
    "crate path, self": "mod {L} { pub use ::funcmap as x; } @D@ #[funcmap(crate = \"{L}::x\")] pub enum D<T> { X(T), Y([T; 2]) }|0",
    "crate path, last": "mod x { pub use ::funcmap as {L}; } @D@ #[funcmap(crate = \"self::x::{L}\", params(T))] pub struct D<T, U>(Vec<T>, U);|0",
    "default": "pub struct {L}; @D@ pub struct D<T = {L}>(T);|0",
    "default of another parameter": "pub struct {L}; @D@ #[funcmap(params(T))] pub struct D<T, U = {L}>(T, U);|0",
    "default of a const parameter": "const {L}: usize = 2; @D@ pub struct D<T, const N: usize = { {L} }>([T; N]);|0",
    "trait object": "pub trait {L}<X> {} @D@ pub struct D<'a, T>(T, Box<dyn {L}<u8> + 'a>, Result<T, &'a dyn {L}<u8>>);|0",
    "function type": "pub struct {L}; @D@ pub struct D<T>(T, fn({L}) -> {L}, *const {L}, &'static [{L}], unsafe extern \"C\" fn(x: {L}));|0",
    "associated type of a trait object": "pub trait Tra { type {L}; } @D@ pub struct D<T>(T, Box<dyn Tra<{L} = u8>>, Result<T, Box<dyn Tra<{L} = [u8; 2]>>>);|0",
    "function trait": "pub struct {L}; @D@ #[funcmap(params(T))] pub struct D<T, G: Fn({L}, T) -> {L}>(T, std::marker::PhantomData<G>) where G: Fn({L}, T) -> {L};|0",
    "Self": "pub trait {L}<X: ?Sized> {} @D@ pub struct D<T>(T, std::marker::PhantomData<Self>) where Self: {L}<T>, T: {L}<Self>;|0",
    "visibility": "pub mod {L} { use super::*; @D@ pub struct D<T> { pub(in super::{L}) x: T, pub(super) y: Vec<T> } }|0",
    "attribute": "@D@ #[doc = \"{L}\"] #[cfg_attr(all(), allow(unused))] pub struct D<T> { #[cfg(all())] /** {L} */ {L}: T }|0",
    "discriminant": "const {L}: isize = 2; @D@ #[repr(isize)] pub enum D<T> { X(T) = {L}, Y = { {L} + 1 } }|0",
    "macro-made definition": "pub struct {L}; macro_rules! mk { ($n:ident<$p:ident>, $t:ty) => { @D@ pub struct $n<$p>($p, {L}, Option<$p>, $t); } } mk!(D<T>, {L});|0",
    "macro-made parameter": "pub struct {L}1; macro_rules! mk { ($p:ident, $q:ident) => { @D@ #[funcmap(params($p))] pub struct D<$p, $q>($p, Vec<$p>, $q); } } mk!(T, {L});|0",
    "generic associated type": "pub trait Tra { type {L}<X>; } impl Tra for u8 { type {L}<X> = Option<X>; } @D@ pub struct D<T>(<u8 as Tra>::{L}<T>);|0",
}


def letters(thorough, sd):
    rnd = random.Random(sd * 3 + 1)
    rest = [c for c in "CGHIJKLMOPQRSVWZ"]
    own = ["A", "B", "E", "F"]
    if not thorough:
        rest = rnd.sample(rest, 2)
    ls = own + rest + ["__FUNCMAP_A", "a", "func_map", "Output", "FuncMap", "TypeParam", "funcmap", "core", "std", "value_", "Result", "FnMut", "Sized", "i0"]
    return ls


TYPES = ("funcmap", "core", "std", "Result", "FnMut", "Sized")  # also types (or crates) in scope everywhere


def letter_defs(thorough, sd):
    out = []
    for L in letters(thorough, sd):
        for k, t in TEMPLATES.items():
            text, sel = t.split("|")
            if L == "Output" and k in ("variant", "enum name"):
                continue  # the known finding below
            if L == "std":
                text = text.replace("std::", "::std::")
            if L in ("funcmap",) and k in ("crate path",):
                text = text.replace("use ::funcmap as funcmap;", "use ::funcmap;")
            if L in ("Result", "FnMut", "Sized") and re.search(r"\b(struct|type|enum|trait|mod) " + L + r"\b", text.replace("{L}", L)):
                text = re.sub(r"(?<![\w:}])(Result)<", r"::std::result::\1<", text) if L == "Result" and not re.search("nested|struct name|enum name|last", k) else text
            text = text.replace("{L}", L)
            if "const {L}" in t and L in TYPES:
                continue  # a known finding below
            out.append(Def(text, "D", [int(x) for x in sel.split()], note=f"{L}: {k}", single=True))
    return out


def many_defs():
    az = [chr(c) for c in range(65, 91)]
    out = [
        Def("@D@ pub struct Dt<" + ", ".join(az) + ">(" + ", ".join(az) + ");", "Dt", range(26), note="all letters mapped"),
        Def("@D@ #[funcmap(params(t))] pub struct Dt<t, " + ", ".join(az) + ">(t, Vec<t>, " + ", ".join(f"Option<{x}>" for x in az) + ");", "Dt", [0], note="all letters as other parameters"),
        Def("@D@ #[funcmap(params(M))] pub enum Dt<" + ", ".join(az) + "> { " + ", ".join(f"{x}({x}, M)" for x in az) + " }", "Dt", [12], note="all letters, variants"),
        Def("; ".join(f"pub struct {x}" for x in az) + "; @D@ pub struct Dt<t>(t, " + ", ".join(x for x in az) + ", Option<t>);", "Dt", [0], note="all letters as types"),
        Def("; ".join(f"pub struct {x}" for x in az) + "; @D@ pub struct Dt<t>(t, " + ", ".join(f"Result<t, {x}>" for x in az) + ");", "Dt", [0], note="all letters as nested types"),
        Def("@D@ pub struct Dt<" + ", ".join(f"const {x}: usize" for x in az if x != "T") + ", T>([T; A], [T; B], [T; E], [T; F], " + ", ".join(f"[u8; {x}]" for x in az if x != "T") + ");", "Dt", [25], note="all letters as consts"),
        Def("@D@ pub struct Dt<" + ", ".join(f"'{x}" for x in az) + ", T>(T, " + ", ".join(f"&'{x} u8" for x in az) + ");", "Dt", [0], note="all letters as lifetimes"),
        Def("@D@ #[funcmap(params(t))] pub struct Dt<t, " + ", ".join(az) + ", " + ", ".join(f"__FUNCMAP_{x}" for x in az) + ">(t, " + ", ".join(az) + ", " + ", ".join(f"__FUNCMAP_{x}" for x in az) + ");", "Dt", [0], note="all letters and their replacements"),
        Def(" ".join(f"pub trait {x} {{}}" for x in az) + " @D@ pub struct Dt<t: " + " + ".join(x for x in az) + ">(t, Vec<t>);", "Dt", [0], note="all letters as traits"),
    ]
    # names of crates as parameters; the crates are still meant by absolute paths
    out += [
        Def("@D@ pub struct D<std>(::std::vec::Vec<std>, ::std::string::String, std);", "D", [0], note="parameter std, fields ::std::.."),
        Def("@D@ pub struct D<core>(::core::option::Option<core>, ::core::time::Duration, [core; 2]);", "D", [0], note="parameter core, fields ::core::.."),
        Def("@D@ pub enum D<std, core> { A(::core::option::Option<std>, ::core::cell::Cell<u8>), B { x: ::std::vec::Vec<core>, y: ::std::rc::Rc<u8>, z: (::std::string::String, std) } }", "D", [0, 1], note="parameters std and core"),
        Def("@D@ pub struct D<funcmap>(funcmap, ::funcmap::TypeParam<0>, ::std::option::Option<funcmap>);", "D", [0], note="parameter funcmap, field ::funcmap::.."),
        Def("@D@ #[funcmap(params(T))] pub struct D<T, std>(::std::vec::Vec<T>, ::std::string::String, std) where ::std::vec::Vec<T>: ::core::clone::Clone;", "D", [0], note="other parameter std"),
        Def("@D@ pub struct D<std: ::std::clone::Clone>(std, ::std::vec::Vec<u8>) where ::std::vec::Vec<std>: ::std::clone::Clone, std: ::std::fmt::Debug;", "D", [0], note="bounds with parameter std"),
    ]
    # two letters at a time, as the second choice of the names
    for a, b in [("A", "B"), ("A", "F"), ("B", "F"), ("E", "F"), ("B", "C"), ("F", "G"), ("A", "C"), ("E", "A")]:
        out.append(Def(f"@D@ pub struct D<{a}, {b}>({a}, {b}, Result<{a}, {b}>, Vec<({a}, {b})>);", "D", [0, 1], note=f"{a} {b}"))
        out.append(Def(f"pub struct {b}; @D@ pub struct D<{a}>({a}, {b}, Result<{a}, {b}>);", "D", [0], note=f"{a}, type {b}"))
        out.append(Def(f"pub trait {b}<X> {{}} @D@ pub struct D<{a}: {b}<{a}>>({a}, Option<{a}>) where Vec<{a}>: {b}<u8>;", "D", [0], note=f"{a}, trait {b}"))
        out.append(Def(f"pub mod {b} {{ pub trait {a} {{}} pub struct X<Y>(pub Y); }} @D@ pub struct D<T: {b}::{a}>({b}::X<T>);", "D", [0], note=f"{b}::{a}"))
    return out


SHADOW = """
    #[allow(non_camel_case_types, dead_code)]
    mod shadow {
        pub struct Option<X>(pub X); pub struct Result<X, Y>(pub X, pub Y); pub struct Vec<X>(pub X); pub struct Box<X>(pub X); pub struct String<X>(pub X);
        pub struct PhantomData<X>(pub X); pub struct TypeParam<X>(pub X); pub struct Infallible; pub struct Arity;
        pub fn Ok() {} pub fn Err() {} pub fn Some() {} pub fn drop() {} pub fn func_map() {} pub fn try_func_map() {} pub fn f() {} pub fn value() {} pub fn field_0() {}
        pub trait Sized {} pub trait FnMut {} pub trait FnOnce {} pub trait Fn {} pub trait Drop {} pub trait Clone {} pub trait Copy {} pub trait Send {} pub trait Iterator {} pub trait From {} pub trait Into {}
        pub trait FuncMap { type Output; } pub trait TryFuncMap { type Output; } pub trait Output {} pub trait Try {} pub trait Default {} pub trait FromIterator {} pub trait IntoIterator {}
        pub struct usize; pub struct bool; pub struct str;
        pub mod core { pub mod marker { pub trait Sized {} } pub mod ops { pub trait FnMut {} pub trait Drop {} } pub mod result { pub enum Result { Ok } } pub mod convert {} pub mod option {} }
        pub mod std { pub mod marker { pub trait Sized {} } pub mod ops { pub trait FnMut {} } pub mod result { pub enum Result { Ok } } }
        pub mod alloc {}
        pub mod funcmap { pub trait FuncMap {} pub trait TryFuncMap {} pub struct TypeParam; pub struct FuncMap_cannot_be_derived_for_types_implementing_Drop; }
        pub mod funcmap_derive {}
        pub trait Ext { fn func_map(self) -> u8 where Self: ::core::marker::Sized { 0 } fn try_func_map(self) -> u8 where Self: ::core::marker::Sized { 0 } fn func_map_over(self) -> u8 where Self: ::core::marker::Sized { 0 } fn branch(self) -> u8 where Self: ::core::marker::Sized { 0 } fn map(self) -> u8 where Self: ::core::marker::Sized { 0 } fn into(self) -> u8 where Self: ::core::marker::Sized { 0 } }
        impl<X: ?::core::marker::Sized> Ext for X {}
        macro_rules! matches { () => { compile_error!("x") } } pub(crate) use matches;
        macro_rules! r#try { () => { compile_error!("x") } } pub(crate) use r#try;
        macro_rules! panic { () => { compile_error!("x") } } pub(crate) use panic;
        macro_rules! unreachable { () => { compile_error!("x") } } pub(crate) use unreachable;
    }
    #[allow(unused_imports)]
    use self::shadow::*;
"""
SHADOW_NAMES = re.findall(r"pub (?:struct|fn|trait|mod) (\w+)", SHADOW) + ["matches", "r#try", "panic", "unreachable"]

SHADOWED = [
    ("@D@ pub struct D<T>(T, Option<T>, Vec<T>, Result<T, u8>, Box<T>, String<T>);", [0]),
    ("@D@ pub struct D<T, U>(T, Result<T, U>, (U, Vec<T>), [T; 2], PhantomData<U>);", [0, 1]),
    ("@D@ pub enum D<T> { Ok(T), Err { x: Option<T> }, Some([T; 3]), None }", [0]),
    ("@D@ pub enum D<T> { A { Ok: T, Err: (T,), Some: u8 }, B(Result<T, T>) }", [0]),
    ("@D@ pub struct D<T: Clone + Copy + Send>(T) where Vec<T>: FnMut + Iterator;", [0]),
    ("@D@ pub struct D<'a, T: 'a, const N: u8>(&'a u8, T, Option<(T, T)>);", [0]),
    ("@D@ #[funcmap(params(U))] pub struct D<T: Sized, U: ?::core::marker::Sized>(T, PhantomData<T>, Box<u8>, ::std::boxed::Box<U>, usize, bool);", [1]),
    ("@D@ pub struct D<T>(::std::option::Option<T>, ::std::vec::Vec<T>, ::std::result::Result<T, ()>, ::std::marker::PhantomData<T>, ::std::collections::HashMap<u8, T>);", [0]),
    ("@D@ pub struct D<T>(TypeParam<T>, core::result::Result, funcmap::TypeParam, T) where T: funcmap::FuncMap + FuncMap<Output = u8>;", [0]),
    ("@D@ pub struct Output<T>(T, [Option<T>; 2]);", [0]),
    ("@D@ pub struct FuncMap1<T: FuncMap<Output = T> + TryFuncMap<Output = u8>>(T, Vec<T>);", [0]),
    ("@D@ pub struct D<Sized>(Sized, Option<Sized>);", [0]),
    ("@D@ pub struct D<FnMut, Result>(FnMut, Result, Option<(FnMut, Result)>);", [0, 1]),
    ("@D@ pub struct D<FuncMap, TryFuncMap, TypeParam>(FuncMap, TryFuncMap, Option<TypeParam>);", [0, 1, 2]),
    ("@D@ pub struct D<core, std, funcmap>(core, Option<std>, [funcmap; 2]);", [0, 1, 2]),
    ("@D@ pub enum D<Ok, Err> { Ok(Ok), Err(Err), Both(Result<Ok, Err>) }", [0, 1]),
    ("@D@ pub struct D<usize, bool>(usize, bool, Option<usize>, [bool; 2], (usize, bool));", [0, 1]),
    ("@D@ pub struct D<T> { func_map: T, try_func_map: Option<T>, r#self: u8 }".replace("r#self", "r#fn"), [0]),
    ("@D@ pub struct D<T>(T, Option<T>); impl<T> D<T> { pub fn func_map(self) {} pub fn try_func_map(self) {} pub fn func_map_over(self) {} pub fn f(self) {} }", [0]),
    ("@D@ pub struct D<T>(T, Option<T>); impl<T> ::std::ops::Add for D<T> { type Output = u8; fn add(self, _: Self) -> u8 { loop {} } } impl<T> FuncMap for D<T> { type Output = u16; }", [0]),
    ("@D@ pub struct D<T>(T, T::X1) where T: ::std::ops::Add<Output = u8>; pub trait Q { type X1; }".replace(", T::X1", ""), [0]),
    ("@D@ pub enum D<T> where Vec<T>: ::std::ops::Add<Output = Vec<T>>, D<T>: ::std::ops::Add<Output = u8> { A(T) }", [0]),
    ("@D@ pub enum D<T> { FuncMap(T), TryFuncMap(T), TypeParam { TypeParam: T }, Self_(T), D(T), T(T), A, B, F, E }", [0]),
]


def shadow_defs():
    out = []
    for t, sel in SHADOWED:
        out.append(Def(SHADOW + t, "D", sel, note="shadowed: " + t.replace("@D@ ", "")))
        # the same names defined by the module itself rather than imported
        own = SHADOW.replace("    #[allow(non_camel_case_types, dead_code)]\n    mod shadow {", "").replace("    }\n    #[allow(unused_imports)]\n    use self::shadow::*;\n", "")
        own = re.sub(r" pub\(crate\) use [\w#]+;", "", own)
        name = re.search(r"pub (?:struct|enum) (\w+)", t).group(1)
        own = re.sub(rf"pub (struct|trait) {name}\b[^;}}]*[;}}]", "", own) if name != "D" else own
        out.append(Def(own + t, "D", sel, note="redefined: " + t.replace("@D@ ", "")))
        # and within a function
        out.append(Def("pub fn fun() {" + own + t + "}", "D", sel, note="in a function: " + t.replace("@D@ ", "")))
    return out


def known_defs():
    """the known findings: names of values that the generated patterns bind, and a variant called Output"""
    out = [
        Def("@D@ pub enum D<T> { Output(T), X }", "D", [0], note="variant Output"),
        Def("#[allow(non_upper_case_globals)] const f: u8 = 0; @D@ pub struct D<T>(T);", "D", [0], note="const f"),
        Def("#[allow(non_upper_case_globals)] const value: u8 = 0; @D@ pub struct D<T>(Option<T>);", "D", [0], note="const value"),
        Def("#[allow(non_upper_case_globals)] const field_0: u8 = 0; @D@ pub struct D<T>(T);", "D", [0], note="const field_0"),
        Def("#[allow(non_upper_case_globals)] static f: u8 = 0; @D@ pub struct D<T>(T);", "D", [0], note="static f"),
        Def("#[allow(non_camel_case_types)] struct f; @D@ pub struct D<T>(T);", "D", [0], note="struct f"),
        Def("@D@ #[allow(non_upper_case_globals)] pub struct D<T, const f: usize>([T; f]);", "D", [0], note="const parameter f"),
    ]
    out += [
        Def("pub struct N; @D@ pub struct D<T, const N: usize>([T; N]);", "D", [0], note="const parameter named like a type"),
        Def("@D@ pub enum D<T, const core: usize> { X([T; core]) }", "D", [0], note="const parameter named like a crate"),
    ]
    return out


def verdicts(rep, defs, by, bad, stats, what=""):
    for d in defs:
        name = (d.note + " — " if d.note else "") + first_line(d)[:160] + what
        if d.mod in bad:
            e = bad[d.mod]
            rep.violation(f"compile: {name}: {e['message']}", f"the derived impls do not compile for {name}: {e['message']}", SRC, {"definition": d.text, "error": e.get("rendered")})
            continue
        for tr in ("FuncMap", "TryFuncMap"):
            rs = by.get((d.mod, tr), [])
            got = sorted(r["index"] for r in rs)
            if got != d.sel:
                rep.violation(f"{tr} indices: {name}", f"{tr} is derived for the positions {got} instead of {d.sel} for {name}", SRC, {"definition": d.text})
            for r in rs:
                stats["impls"] += 1
                stats["closures"] += r.get("sites", 0)
                for x in r["bad"] + [f"demands `{c}`" for c in r["extra"]] + ([] if r["status"] == "ok" else [r["msg"]]):
                    rep.violation(f"{tr} meaning: {name} {r['index']} {x[:60]}", f"{r['header']}, derived for {name}: {x}", SRC, {"definition": d.text, "record": r})


def c15():
    rep = Report("C15", "translation_validation")
    stats = dict(impls=0, closures=0)
    runs = []
    defs = letter_defs(tier(), seed()) + many_defs()
    for d in defs:
        d.text = d.text.replace("@M@", "@@")
    runs.append(("l", defs, {"crate": {"uses": gen.USES.replace("use std", "use ::std")}}))
    runs.append(("s", shadow_defs(), {"crate": {"uses": "    use super::sup::{As, K0, K1, L1, Tr1, TrL};\n"}}))
    runs.append(("k", known_defs(), {}))
    # no prelude
    np = "#![no_implicit_prelude]\n" + gen.HEAD
    sup = "extern crate std; extern crate core;\n" + gen.SUP.replace("pub mod sup {", "pub mod sup {\n    use std::prelude::v1::*;").replace("use std::", "use ::std::")
    nd = [Def(d.text, d.name, d.sel, note="no prelude") for d in gen.types_group(False, seed())[::12]] + [Def(d.text, d.name, d.sel, note="no prelude") for d in gen.bounds_group(False, seed())[::9]]
    runs.append(("n", nd, {"crate": {"head": np, "sup": sup, "uses": "    use ::std::{option::Option, result::Result, vec::Vec, boxed::Box, clone::Clone, marker::{Copy, Sized, Send, Sync, Unpin}, cmp::*, convert::*, iter::*, ops::*, string::String};\n    use ::std;\n" + gen.USES.replace("use std", "use ::std")}}))
    total = 0
    for tag, ds, kw in runs:
        kw = {**kw, "crate": {**kw.get("crate", {}), "derive": DERIVE}}
        ds, out = legal("c15" + tag, ds, **kw)
        for d, e in out:
            if os.environ.get("FV_DEBUG"):
                print("twin:", d.note, e["message"][:100])
        by, bad, _ = analyse("c15" + tag, ds, **kw)
        verdicts(rep, ds, by, bad, stats)
        total += len(ds)
    rep.coverage = {
        "explanation": f"{total} definitions derived with both macros: every letter the macro may choose (and names it must not resolve, like Output, FuncMap, core) in {len(TEMPLATES)} positions of the definition, its options and the surrounding module, all letters at once, in crates where every name of the prelude, core, std and funcmap the generated code could use is shadowed (imported, redefined, in a function), and without any prelude. Each must compile, implement exactly the selected parameters with the right header and no extra predicate, and every body must be the mapping demanded by the type-checked definition (as in C11 and C12).",
        "programs": total,
        "obligations": stats["impls"] + stats["closures"],
        "samples": samples(defs),
    }
    rep.assumptions = TRUST
    return rep.finish()


# option, macros, crate root (@X@: where the option's path leads), extra `use`s of the definition's module, editions
PATHS = [
    ("fm", "fm", "", "", (2018, 2021, 2024)),
    ("::fm", "::fm", "", "", (2018, 2021)),
    ("::fm", "::fm", "extern crate fm;", "", (2015,)),
    ("::other", "fm", "extern crate fm; extern crate fm as other;", "", (2018,)),
    ("other", "fm", "extern crate fm as other;", "", (2021,)),
    ("crate::reexp", "fm", "pub mod reexp { pub use fm::*; }", "", (2021,)),
    ("crate::reexp", "::reexp", "extern crate fm; pub mod reexp { pub use fm::*; }", "", (2015,)),
    ("::reexp", "::reexp", "extern crate fm; pub mod reexp { pub use fm::*; }", "", (2015,)),
    ("crate::reexp", "crate::reexp", "pub use fm as reexp;", "", (2018, 2024)),
    ("crate::a::b::c", "crate::a::b::c", "pub mod a { pub mod b { pub use fm as c; } }", "", (2021,)),
    ("super::reexp", "fm", "pub mod reexp { pub use fm::*; }", "", (2021,)),
    ("super::reexp::x", "fm", "pub mod reexp { pub mod x { pub use fm::*; } }", "", (2018,)),
    ("self::own", "fm", "", "    use fm as own;\n", (2021,)),
    ("self::own::x", "fm", "", "    mod own { pub use fm as x; }\n", (2021,)),
    ("own", "own", "", "    use fm as own;\n", (2021, 2018)),
    ("own::x", "own::x", "", "    mod own { pub use fm as x; }\n", (2024,)),
    ("own::funcmap", "fm", "", "    mod own { pub use fm as funcmap; }\n", (2021,)),
    ("funcmap", "fm", "", "    use fm as funcmap;\n", (2021,)),
    ("self::funcmap", "fm", "", "    mod funcmap { pub use fm::*; }\n", (2021,)),
    ("r#type", "r#type", "", "    use fm as r#type;\n", (2021,)),
    ("crate::r#mod::r#fn", "fm", "pub mod r#mod { pub use fm as r#fn; }", "", (2018, 2021)),
    ("crate::only", "crate::only", "pub mod only { pub use fm::{FuncMap, TryFuncMap, TypeParam, FuncMap_cannot_be_derived_for_types_implementing_Drop, TryFuncMap_cannot_be_derived_for_types_implementing_Drop}; }", "", (2021,)),
    (None, "::funcmap", "", "    mod funcmap {}\n", (2018, 2021, 2024)),
    (None, "::funcmap", "extern crate funcmap;", "    mod funcmap {}\n", (2015,)),
    (None, "::funcmap", "mod funcmap {} pub mod fm { pub trait FuncMap {} }", "    use super::funcmap; use super::fm::*;\n", (2021,)),
]

# every kind of bound, field and parameter at least once for each path
CORE = [
    ("@D@ pub struct D<T>(T);", [0]),
    ("@D@ pub struct D<T, U>(T, U, Result<T, U>, Vec<(T, Option<U>)>);", [0, 1]),
    ("@D@ pub enum D<'a, T: 'a, const N: usize> { X(&'a u8), Y([T; N]), Z { x: (T, u8), y: K1<T, N> } }", [0]),
    ("@D@ pub struct D<T: Clone>(T, Option<[T; 2]>) where Vec<T>: Clone;", [0]),
    ("@D@ #[funcmap(params(U))] pub struct D<T, U: Tr1<T>>(T, Box<U>) where T: Tr1<U>;", [1]),
    ("@D@ #[funcmap(params(T))] #[funcmap(params(V))] pub enum D<T, U, V> { A(T, U), B(Result<V, U>, Result<U, V>) }", [0, 2]),
    ("@D@ pub struct D<T>(std::rc::Rc<u8>, std::collections::BTreeMap<u8, T>, std::cell::RefCell<T>);", [0]),
    ("pub mod q { use super::*; @D@ pub struct D<T>(T, Option<T>); }", [0]),
    ("pub fn fun() { @D@ pub struct D<T>(T, Option<T>); }", [0]),
    ("macro_rules! mk { ($n:ident, $p:ident) => { @D@ pub struct $n<$p>($p, Option<$p>); } } mk!(D, T);", [0]),
]


def c16():
    rep = Report("C16", "translation_validation")
    stats = dict(impls=0, closures=0)
    total = 0
    lots = [d for g in (gen.types_group, gen.bounds_group, gen.generics_group) for d in g(tier(), seed()) if "crate =" not in d.text]
    k = 0
    for path, mac, root, own, eds in PATHS:
        for ed in eds:
            ds = []
            for t, sel in CORE:
                if own and t.startswith("pub mod q") or (path or "").startswith("super::") and t.startswith("pub mod q"):
                    continue  # the module's own names are not in scope there
                ds.append(Def(t, "D", sel))
            # a different sample of the definitions of C11-C14 for each path
            step = 5 if tier() else 29
            ds += [Def(d.text, d.name, d.sel) for d in lots[k % step :: step]]
            k += 1
            opt = f" #[funcmap(crate = \"{path}\")]" if path else ""
            derive = f"#[derive({mac}::FuncMap, {mac}::TryFuncMap)]{opt}"
            uses = gen.USES + own
            head = gen.HEAD + root + "\n"
            kw = {"crate": {"derive": derive, "uses": uses, "head": head}, "compile": {"extern": "fm" if path else "funcmap", "edition": str(ed)}}
            what = f" with the path {path or '::funcmap'} ({mac}, {root + own}, edition {ed})"
            ds, out = legal(f"c16_{k}", ds, **kw)
            for d, e in out:
                if os.environ.get("FV_DEBUG"):
                    print("twin:", d.note[:60], e["message"][:100], what)
            by, bad, _ = analyse(f"c16_{k}", ds, **kw)
            verdicts(rep, ds, by, bad, stats, what)
            total += len(ds)
    if total < 500:
        raise Broken("too few definitions are legal")
    rep.coverage = {
        "explanation": f"{total} definitions derived in {k} crates which know funcmap only by another name, a re-export, or a name local to the module (so that a reference through the name funcmap does not resolve), and, without the option, where `funcmap` is a trap and only `::funcmap` leads to the crate. Each must compile and have impls of the real traits with the meaning demanded by the type-checked definition.",
        "programs": total,
        "obligations": stats["impls"] + stats["closures"],
        "samples": [repr(x) for x in PATHS[:20]],
    }
    rep.assumptions = TRUST
    return rep.finish()


CHECKS = {"C15": c15, "C16": c16}
