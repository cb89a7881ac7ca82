from __main__ import seed, A, C, ST, R, L, D
import __main__ as _m

seed("c01-vec-halves", "C01", "a vector longer than 16 elements",
 "Vec's infallible mapping processes the second half of a long vector before the first: the closure is called out of order (the result is right).",
 [(A, "body", "impl<A, B> FuncMap<A, B> for Vec<A>", "func_map", """            let mut f = f;
            let mut head = self;
            if head.len() > 16 {
                // keep the reallocations of long vectors small
                let tail = head.split_off(16);
                let tail: Vec<B> = tail.into_iter().map(&mut f).collect();
                return head.into_iter().map(f).chain(tail).collect();
            }
            head.into_iter().map(f).collect()""")],
 """use funcmap::FuncMap;
fn main() {
    for n in 0..40usize {
        let mut seen = Vec::new();
        let out = (0..n).collect::<Vec<_>>().func_map(|x| { seen.push(x); x * 2 });
        assert_eq!(seen, (0..n).collect::<Vec<_>>());
        assert_eq!(out, (0..n).map(|x| x * 2).collect::<Vec<_>>());
    }
}
""")

seed("c02-btree-eager", "C02", "a map whose failing value is not the last one, and a closure with observable calls",
 "The fallible mapping of BTreeMap values calls the closure for every value before looking for a failure, so it is called again after the first failure.",
 [(A, "    use alloc::collections::{btree_map, BTreeMap};", "    use alloc::{collections::{btree_map, BTreeMap}, vec::Vec};"),
  (A, "body", "TryFuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>", "try_func_map", """            let mapped: Vec<(K, Result<B, E>)> =
                self.into_iter().map(|(k, v)| (k, f(v))).collect();
            mapped.into_iter().map(|(k, v)| Ok((k, v?))).collect()""")],
 """use funcmap::{TryFuncMap, TypeParam};
use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<u32, u32> = (0..6).map(|x| (x, x)).collect();
    let mut seen = Vec::new();
    let r: Result<BTreeMap<u32, u32>, u32> =
        TryFuncMap::<_, _, TypeParam<1>>::try_func_map(m, |x| { seen.push(x); if x >= 2 { Err(x) } else { Ok(x) } });
    assert_eq!(r, Err(2));
    assert_eq!(seen, [0, 1, 2]);
}
""")

seed("c03-needs-drop", "C03", "an output type with drop glue, an input type without, and a closure failing after at least one success",
 "The guard of the array mapping skips dropping the outputs when the input type needs no drop: outputs leak on failure.",
 [(R, "    struct Guard<'a, T, const N: usize> {", "    struct Guard<'a, T, const N: usize> {\n        // whether there is anything to drop at all\n        needs_drop: bool,\n"),
  (R, "            // - `self.init_until_idx <= N` is always satisfied", "            if !self.needs_drop {\n                return;\n            }\n\n            // - `self.init_until_idx <= N` is always satisfied"),
  (R, "        array_mut: &mut mapped,\n", "        needs_drop: mem::needs_drop::<A>(),\n        array_mut: &mut mapped,\n")],
 """use funcmap::TryFuncMap;
use std::rc::Rc;
fn main() {
    let token = Rc::new(());
    let r: Result<[Rc<()>; 4], u8> = [0u8, 1, 2, 3].try_func_map(|x| if x == 3 { Err(x) } else { Ok(token.clone()) });
    assert!(r.is_err());
    assert_eq!(Rc::strong_count(&token), 1, "outputs leaked");
}
""")

# ------------------------------------------------------------ the crate itself
seed("c02-range-inclusive-end", "C02", "a RangeInclusive whose two ends both fail, or a closure with observable calls",
 "The fallible mapping of RangeInclusive maps the end before the start: the wrong error wins.",
 [(C, "body", "TryFuncMap<A, B> for RangeInclusive<A>", "try_func_map", """            let (start, end) = self.into_inner();
            let end = f(end)?;
            f(start).map(|start| start..=end)""")],
 """use funcmap::TryFuncMap;
fn main() {
    let mut seen = Vec::new();
    let r: Result<std::ops::RangeInclusive<u8>, u8> = (1..=2).try_func_map(|x| { seen.push(x); Err(x) });
    assert_eq!(r, Err(1));
    assert_eq!(seen, [1]);
}
""")

seed("c03-guard-chunks", "C03", "a failure after at least nine successes, and an output type with drop glue",
 "The guard of the array mapping drops the outputs in chunks of eight and forgets the rest.",
 [(R, "            unsafe { ptr::drop_in_place(init_slice) };", """            unsafe {
                if init_slice.len() <= 8 {
                    ptr::drop_in_place(init_slice);
                } else {
                    for chunk in init_slice.chunks_exact_mut(8) {
                        ptr::drop_in_place(chunk);
                    }
                }
            };""")],
 """use funcmap::TryFuncMap;
use std::rc::Rc;
fn main() {
    let token = Rc::new(());
    for n in 0..20u8 {
        let mut i = 0;
        let r: Result<[Rc<()>; 20], u8> = [(); 20].try_func_map(|()| { i += 1; if i - 1 == n { Err(n) } else { Ok(token.clone()) } });
        assert!(r.is_err());
        assert_eq!(Rc::strong_count(&token), 1, "outputs leaked");
    }
}
""")

seed("c04-list-iter-std", "C04", "a build with the alloc feature and without the std feature",
 "TryFuncMap for linked_list::IntoIter exists only with the std feature, FuncMap also with alloc.",
 [(A, "    impl<A, B> TryFuncMap<A, B> for linked_list::IntoIter<A> {", "    #[cfg(feature = \"std\")]\n    impl<A, B> TryFuncMap<A, B> for linked_list::IntoIter<A> {")],
 """use funcmap::TryFuncMap;
use std::collections::{linked_list, LinkedList};
fn main() {
    let it = LinkedList::from([1u8, 2]).into_iter();
    let r: Result<linked_list::IntoIter<u16>, ()> = it.try_func_map(|x| Ok(x.into()));
    assert_eq!(r.unwrap().collect::<Vec<_>>(), [1, 2]);
}
""", dep='funcmap = { path = "$repo/funcmap", default-features = false, features = ["alloc"] }')

seed("c05-hashset-src", "C05", "a HashSet whose source type is not Hash",
 "Fallibly mapping a HashSet demands that the source type is hashable, which building the output does not take.",
 [(ST, """    impl<A, B, S> TryFuncMap<A, B> for HashSet<A, S>
    where
""", """    impl<A, B, S> TryFuncMap<A, B> for HashSet<A, S>
    where
        A: Eq + Hash,
""")],
 """use funcmap::TryFuncMap;
use std::collections::HashSet;
struct NotHash;
fn main() {
    let r: Result<HashSet<u8>, ()> = HashSet::<NotHash>::new().try_func_map(|_| Ok(1));
    assert!(r.unwrap().is_empty());
}
""")

seed("c06-vec-over-rev", "C06", "calling try_func_map_over on a Vec (not try_func_map)",
 "Vec overrides try_func_map_over; the override visits the elements from the back.",
 [(A, """    impl<A, B> TryFuncMap<A, B> for Vec<A> {
        type Output = Vec<B>;
""", """    impl<A, B> TryFuncMap<A, B> for Vec<A> {
        type Output = Vec<B>;

        fn try_func_map_over<Q, E, F>(mut self, mut f: F) -> Result<Self::Output, E>
        where
            F: FnMut(A) -> Result<B, E>,
            Q: crate::FuncMarker<crate::TypeParam<0>>,
        {
            let mut mapped = Vec::with_capacity(self.len());
            while let Some(value) = self.pop() {
                mapped.push(f(value)?);
            }
            mapped.reverse();
            Ok(mapped)
        }
""")],
 """use funcmap::{TryFuncMap, TypeParam};
fn main() {
    let r: Result<Vec<u8>, u8> = vec![1, 2, 3].try_func_map_over::<TypeParam<0>, _, _>(|x| if x > 1 { Err(x) } else { Ok(x) });
    assert_eq!(r, Err(2));
}
""")

seed("c09-btree-expect", "C09", "keys that collide after mapping",
 "Mapping the keys of a BTreeMap panics when two keys collide.",
 [(A, "body", "FuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>", "func_map", """            let len = self.len();
            let mapped: BTreeMap<B, V> = self.into_iter().map(|(k, v)| (f(k), v)).collect();
            mapped.keys().nth(len.saturating_sub(1)).map_or((), drop);
            assert!(mapped.len() == len || len < 64, "colliding keys");
            mapped""")],
 """use funcmap::{FuncMap, TypeParam};
use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<u32, u32> = (0..100).map(|x| (x, x)).collect();
    let m: BTreeMap<u32, u32> = FuncMap::<_, _, TypeParam<0>>::func_map(m, |x| x % 7);
    assert_eq!(m.len(), 7);
}
""")

seed("c23-first-wins", "C23", "values with colliding mapped keys",
 "Fallibly mapping the keys of a HashMap keeps the first of several colliding entries where insertion would keep the last.",
 [(ST, "body", "TryFuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>", "try_func_map", """            let mut mapped = HashMap::with_capacity(self.len());
            for (k, v) in self {
                mapped.entry(f(k)?).or_insert(v);
            }
            Ok(mapped)""")],
 """use funcmap::{TryFuncMap, TypeParam};
use std::collections::HashMap;
fn main() {
    for n in 2..40u32 {
        let m: HashMap<u32, u32> = (0..n).map(|x| (x, x)).collect();
        let want: HashMap<u32, u32> = m.clone().into_iter().map(|(k, v)| (k % 2, v)).collect();
        // a clone iterates in the same order
        let order: Vec<u32> = m.keys().copied().collect();
        assert_eq!(order, m.clone().into_keys().collect::<Vec<_>>());
        let got: Result<HashMap<u32, u32>, ()> = TryFuncMap::<_, _, TypeParam<0>>::try_func_map(m, |k| Ok(k % 2));
        assert_eq!(got.unwrap(), want);
    }
}
""")

seed("c07-any-marker", "C07", "an impl of TryFuncMap for an own type with something else than TypeParam as its marker",
 "TryFuncMap does not demand that its third parameter is a marker.",
 [(L, """pub trait TryFuncMap<A, B, P = TypeParam<0>>: Sized
where
    P: FuncMarker<P>,
{""", """pub trait TryFuncMap<A, B, P = TypeParam<0>>: Sized {""")],
 """use funcmap::{TryFuncMap, TypeParam};
struct Own<T>(T);
impl<A, B> TryFuncMap<A, B, TypeParam<0>> for Own<A> {
    type Output = Own<B>;
    fn try_func_map<E, F>(self, mut f: F) -> Result<Own<B>, E> where F: FnMut(A) -> Result<B, E> { f(self.0).map(Own) }
}
fn main() {}
""", bad="""use funcmap::TryFuncMap;
struct Own<T>(T);
impl<A, B> TryFuncMap<A, B, String> for Own<A> {
    type Output = Own<B>;
    fn try_func_map<E, F>(self, mut f: F) -> Result<Own<B>, E> where F: FnMut(A) -> Result<B, E> { f(self.0).map(Own) }
}
fn main() {}
""")

seed("c08-phantom-core", "C08", "a build without the alloc feature, and a source type that is not Copy",
 "Without the alloc feature, FuncMap for PhantomData demands a Copy source type.",
 [(C, "    impl<A, B> FuncMap<A, B> for PhantomData<A> {", """    #[cfg(not(feature = "alloc"))]
    impl<A, B> FuncMap<A, B> for PhantomData<A>
    where
        A: Copy,
    {
        type Output = PhantomData<B>;

        fn func_map<F>(self, _f: F) -> Self::Output
        where
            F: FnMut(A) -> B,
        {
            PhantomData
        }
    }

    #[cfg(feature = "alloc")]
    impl<A, B> FuncMap<A, B> for PhantomData<A> {""")],
 """use funcmap::FuncMap;
use std::marker::PhantomData;
fn main() {
    let p: PhantomData<u8> = PhantomData::<String>.func_map(|_| 1);
    let _ = p;
}
""", dep='funcmap = { path = "$repo/funcmap", default-features = false }')

# ------------------------------------------------------------ the derive macros
seed("c11-args-from-the-back", "C11", "a field type with three or more arguments that contain the parameter, and a closure with observable calls",
 "Derived impls map the arguments of a type with many arguments from the last to the first.",
 [(D + "map.rs", "                for (marker_idx, arg_type) in arg_types {", """                // the innermost call belongs to the last argument
                let mut arg_types: Vec<_> = arg_types.collect();
                if arg_types.len() > 2 {
                    arg_types.reverse();
                }

                for (marker_idx, arg_type) in arg_types {""")],
 """use funcmap::FuncMap;
#[derive(FuncMap, Debug, PartialEq)]
struct Three<X, Y, Z>(X, Y, Z);
#[derive(FuncMap, Debug, PartialEq)]
struct D<T>(Three<T, T, T>);
fn main() {
    let mut seen = Vec::new();
    let d = D(Three(1u8, 2, 3)).func_map(|x| { seen.push(x); u16::from(x) });
    assert_eq!(d, D(Three(1u16, 2, 3)));
    assert_eq!(seen, [1, 2, 3]);
}
""")

seed("c12-late-variant-fields", "C12", "a variant or struct with four or more fields, two of which fail, or a closure with observable calls",
 "The derived fallible mapping of a large variant maps its first field last.",
 [(D + "derive.rs", "                        mappings.push(quote!(#member: #tokens));", """                        // keep the cheap moves together
                        if variant_ident.is_some() && fields.len() > 3 && field_idx > 0 && matches!(derivable, Derivable::Fallible) {
                            mappings.insert(mappings.len() - 1, quote!(#member: #tokens));
                        } else {
                            mappings.push(quote!(#member: #tokens));
                        }""")],
 """use funcmap::TryFuncMap;
#[derive(TryFuncMap, Debug, PartialEq)]
enum D<T> { A(T, T, T, T), B }
fn main() {
    let mut seen = Vec::new();
    let r: Result<D<u8>, u8> = D::A(1, 2, 3, 4).try_func_map(|x| { seen.push(x); if x == 1 || x == 3 { Err(x) } else { Ok(x) } });
    assert_eq!(r, Err(1));
    assert_eq!(seen, [1]);
    let _ = D::<u8>::B;
}
""")

seed("c13-first-two", "C13", "an explicit selection of three or more parameters",
 "Of an explicit selection of parameters only the first two get an impl.",
 [(D + "input.rs", """                _ => None,
            })
            .collect();

        if mapped_type_params""", """                _ => None,
            })
            .take(match mapped_type_param_idents.len() {
                0 => usize::MAX,
                _ => 2,
            })
            .collect();

        if mapped_type_params""")],
 """use funcmap::{FuncMap, TypeParam};
#[derive(FuncMap)]
#[funcmap(params(A, B, C))]
struct D<A, B, C, X>(A, B, C, X);
fn main() {
    let d = D(1u8, 2u8, 3u8, "x");
    let d: D<u8, u8, String, &str> = FuncMap::<_, _, TypeParam<2>>::func_map(d, |x| x.to_string());
    assert_eq!(d.2, "3");
}
""")

seed("c14-merge-binders", "C14", "two where predicates on the same type, one of them higher-ranked",
 "Where predicates on the same type are merged although their for<..> binders differ, so one of them loses or gains a lifetime.",
 [(D + "predicates.rs", "#[derive(Debug, Eq, Hash, PartialEq)]\nstruct TypePredicateLhs", "#[derive(Debug, Eq)]\nstruct TypePredicateLhs"),
  (D + "predicates.rs", "#[derive(Debug, Default)]\npub(crate) struct UniquePredicates", "impl PartialEq for TypePredicateLhs {\n    fn eq(&self, other: &Self) -> bool {\n        self.bounded_ty == other.bounded_ty\n    }\n}\n\nimpl std::hash::Hash for TypePredicateLhs {\n    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n        self.bounded_ty.hash(state);\n    }\n}\n\n#[derive(Debug, Default)]\npub(crate) struct UniquePredicates")],
 """use funcmap::FuncMap;
trait Borrowed<'a> {}
impl<'a, T> Borrowed<'a> for T {}
#[derive(FuncMap)]
struct D<T>(Option<T>) where T: Clone, for<'a> T: Borrowed<'a>;
fn main() {
    assert!(D(Some(1)).func_map(|x| x + 1).0 == Some(2));
}
""")

seed("c15-letters-in-groups", "C15", "a macro in a bound or const expression whose tokens contain a group that mentions a type called like a generated parameter",
 "Names inside groups of a macro's tokens are not reserved, so a generated type parameter can shadow a type the definition refers to.",
 [(D + "ident_collector.rs", """    fn visit_ident(&mut self, ident: &Ident) {
""", """    fn visit_path_segment(&mut self, segment: &syn::PathSegment) {
        // an item further down a path cannot be shadowed
        if segment.arguments.is_empty() {
            self.visit_ident(&segment.ident);
        } else {
            self.visit_path_arguments(&segment.arguments);
        }
    }

    fn visit_ident(&mut self, ident: &Ident) {
""")],
 """use funcmap::FuncMap;
pub struct A<X>(X);
#[derive(FuncMap)]
struct D<T>(T, Option<Box<A<u8>>>);
fn main() {
    let d = D(1, Some(Box::new(A(1u8)))).func_map(|x| x + 1);
    assert!(d.0 == 2 && d.1.is_some());
}
""")

seed("c16-long-path", "C16", "a crate option with three or more segments",
 "A crate option that names a path of three or more segments is ignored.",
 [(D + "input.rs", "            crate_path: opts.crate_path.unwrap_or_else(|| {", "            crate_path: opts.crate_path.filter(|path| path.segments.len() < 3).unwrap_or_else(|| {")],
 """mod a { pub mod b { pub use ::fm as funcmap; } }
use a::b::funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(crate = "crate::a::b::funcmap")]
struct D<T>(Option<T>);
fn main() {
    assert!(D(Some(1)).func_map(|x| x + 1).0 == Some(2));
}
""", dep='fm = { package = "funcmap", path = "$repo/funcmap" }')

seed("c17-many-params", "C17", "a type with five or more parameters that implements Drop and whose fields are Copy",
 "The guard against Drop is left out for definitions with many parameters.",
 [(D + "derive.rs", "        quote_spanned! { ident.span() =>\n            #attrs\n", "        let many = all_params.len() > 4;\n        let guard = quote_spanned! { ident.span() =>\n            #attrs\n"),
  (D + "derive.rs", "                #where_clause\n            {}\n        }\n", "                #where_clause\n            {}\n        };\n        // the impls below move out of the fields, which rustc checks itself\n        if many { TokenStream::new() } else { guard }\n")],
 """use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(params(T))]
struct D<T, A, B, C, X>(std::marker::PhantomData<(T, A, B, C, X)>);
fn main() {}
""".replace("std::marker::PhantomData<(T, A, B, C, X)>", "std::marker::PhantomData<T>, std::marker::PhantomData<(A, B, C, X)>"), bad="""use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(params(T))]
struct D<T, A, B, C, X>(std::marker::PhantomData<T>, std::marker::PhantomData<(A, B, C, X)>);
impl<T, A, B, C, X> Drop for D<T, A, B, C, X> { fn drop(&mut self) {} }
fn main() {}
""")

seed("c18-same-crate-twice", "C18", "a crate option that is repeated with the same path",
 "A duplicate crate option is accepted when it repeats the path.",
 [(D + "opts.rs", "Arg::Crate(ArgCrate(value)) if crate_path.is_none() => {", "Arg::Crate(ArgCrate(value)) if crate_path.is_none() || crate_path.as_ref() == Some(&value) => {")],
 """use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(crate = "funcmap")]
struct D<T>(T);
fn main() {}
""", bad="""use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(crate = "funcmap")]
#[funcmap(crate = "funcmap")]
struct D<T>(T);
fn main() {}
""", msg="duplicate crate path")

seed("c21-hashed-predicates", "C21", "two runs of the compiler over a definition with several where predicates or nested types",
 "The lifetime predicates of the generated impls are kept in a randomly seeded hash map, so the generated code differs from one compilation to the next.",
 [(D + "predicates.rs", "    for_lifetimes: IndexMap<Lifetime, UniqueLifetimeBounds>,", "    for_lifetimes: std::collections::HashMap<Lifetime, UniqueLifetimeBounds>,")],
 """use funcmap::FuncMap;
#[derive(FuncMap)]
pub struct D<'a, 'b, 'c, 'd, 'e, 'f, T>(pub T, pub [&'a &'b &'c &'d &'e &'f u8; 0])
where 'a: 'a, 'b: 'a, 'c: 'b, 'd: 'c, 'e: 'd, 'f: 'e;
""", demo='''#!/bin/bash
# expands the same definition several times; the result must always be the same
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/lib.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
funcmap = { path = "$repo/funcmap" }
[workspace]
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t"; export CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=1.87.0 RUSTC_BOOTSTRAP=1
for i in 1 2 3 4 5 6; do
  touch src/lib.rs
  cargo rustc --offline --quiet --profile check -- -Zunpretty=expanded > "out$i" || exit 3
  cmp out1 "out$i" || exit 1
done
''')

seed("c24-is-some-and", "C24", "a toolchain between the documented minimum and 1.69",
 "The derives look for qualified paths with Option::is_some_and, which Rust 1.65 does not have.",
 [(D + "map.rs", """                if let Some(QSelf { ty: inner_ty, .. }) = &qself {
                    if inner_ty
                        .dependency_on_type(&self.mapping.type_param.ident)
                        .is_some()
                    {""", """                {
                    if qself
                        .as_ref()
                        .is_some_and(|QSelf { ty, .. }| ty.dependency_on_type(&self.mapping.type_param.ident).is_some())
                    {""")],
 None, demo='''#!/bin/bash
# clippy's incompatible_msrv, with the documented minimum version (a 1.65 toolchain is not installed)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$repo/funcmap_derive" "$t/d"; cp "$repo/Cargo.lock" "$t/d/" 2>/dev/null
printf '\\n[workspace]\\n' >> "$t/d/Cargo.toml"
cd "$t/d" && CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=stable cargo clippy --offline --lib -- --cap-lints warn -W clippy::incompatible_msrv 2> err.txt || { cat err.txt; exit 3; }
if grep -n "current MSRV" err.txt; then exit 1; fi
exit 0
''')

seed("c19-absent-one", "C19", "two helper attributes on the same field, variant or parameter",
 "Of several misplaced helper attributes in one place only the first is reported.",
 [(D + "opts.rs", "        .collect::<result::Builder>()\n", "        .take(1)\n        .collect::<result::Builder>()\n")],
 """use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(params(T))]
struct D<T>(T);
fn main() {}
""", bad="""use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(params(T))]
struct D<T>(
    #[funcmap]
    #[funcmap(params(T))]
    T,
);
fn main() {}
""", msg="src/main.rs:6:")

_ps = ", ".join(f"P{i}" for i in range(260))
seed("c20-wide", "C20", "a selected type parameter behind more than 255 others, such as in the row type of a wide table",
 "The index of a type parameter has to fit into a byte; the derive panics otherwise.",
 [(D + "input.rs", "                        marker_idx,\n                        type_param", "                        marker_idx: u8::try_from(marker_idx).expect(\"too many type parameters\").into(),\n                        type_param")],
 """use funcmap::{FuncMap, TypeParam};
#[derive(FuncMap)]
#[funcmap(params(P259))]
struct Row<PS>(P259, std::marker::PhantomData<(UNUSED)>);
fn main() {
    let r: Row<ARGS> = Row(1, std::marker::PhantomData);
    let r = FuncMap::<u8, u16, TypeParam<259>>::func_map(r, |x| u16::from(x) + 1);
    assert_eq!(r.0, 2);
}
""".replace("PS", _ps).replace("std::marker::PhantomData<(UNUSED)>", ", ".join(f"std::marker::PhantomData<P{i}>" for i in range(259))).replace("ARGS", "(), " * 259 + "u8").replace("Row(1, std::marker::PhantomData)", "Row(1" + ", std::marker::PhantomData" * 259 + ")"))

seed("c22-field-spans", "C22", "a field that is not in snake case although allowed, and a crate that denies warnings",
 "The variable for a field has the span of the field, so lints about names look at it.",
 [(D + "derive.rs", """                        let ident = format_ident!(
                            "field_{}",
                            field_ident.clone(),
                            span = Span::mixed_site()
                        );""", """                        let ident = format_ident!("field_{}", field_ident.clone());""")],
 """#![deny(warnings)]
use funcmap::FuncMap;
#[derive(FuncMap)]
#[allow(non_snake_case)]
pub struct D<T> {
    pub Name: T,
}
fn main() {
    let _ = D { Name: 1 }.func_map(|x| x + 1);
}
""")

_RUN = r'''#!/bin/bash
# builds and runs main.rs against the crate in the current directory; the build must come to an end
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
funcmap = { path = "$repo/funcmap" }
[workspace]
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && ulimit -v 12000000 && CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=1.87.0 timeout -k 5 120 cargo run --offline --quiet
'''
_names = sorted({f"__FUNCMAP_{chr(65 + l)}{'' if i == 1 else i}" for l in range(26) for i in range(1, 10)} | {chr(65 + l) for l in range(26) if l != 19})
seed("c25-cycle", "C25", "a definition that mentions all the names the derive tries first, such as generated code that was written out and derived again",
 "The search for a free name goes round a fixed number of candidates for ever when all of them are taken.",
 [(D + "ident_collector.rs", "(0..=usize::MAX)", "(0_u8..=9).cycle()")],
 """#![allow(non_camel_case_types)]
use funcmap::FuncMap;
use std::marker::PhantomData;
DECLS
#[derive(FuncMap)]
struct Def<T>(T, FIELDS);
fn main() {
    let _: fn(Def<u8>, fn(u8) -> u16) -> Def<u16> = FuncMap::func_map;
}
""".replace("DECLS", "".join(f"pub struct {n};\n" for n in _names)).replace("FIELDS", ", ".join(f"PhantomData<{n}>" for n in _names)), demo=_RUN)

seed("c25-parens", "C25", "a field type with two pairs of parentheses around it, as macros produce them",
 "Stripping parentheses never gets past a pair that encloses another pair.",
 [(D + "map.rs", "    fn map(&mut self, mappable: TokenStream, ty: &Type) -> Result<TokenStream, Error> {\n", """    fn map(&mut self, mappable: TokenStream, mut ty: &Type) -> Result<TokenStream, Error> {
        // parentheses around a type that can be mapped are redundant
        while let Type::Paren(TypeParen { elem, .. }) = ty {
            if let Type::Path(..) | Type::Tuple(..) | Type::Array(..) = **elem {
                ty = elem;
            }
        }

""")],
 """#![allow(unused_parens)]
use funcmap::FuncMap;
#[derive(FuncMap)]
struct D<T>(((T)));
fn main() {
    assert_eq!(D(1_u8).func_map(|x| u16::from(x) + 1).0, 2);
}
""", demo=_RUN)

# ------------------------------------------------------------ twentieth context
seed("c18-debug-assert", "C18", "a build without debug assertions and a parameter that is selected twice",
 "The insertion into the set of selected parameters happens inside a debug_assert!, so an optimised build of the macro forgets every selected parameter.",
 [(D + "opts.rs", "                                        params.insert(value);", "                                        debug_assert!(params.insert(value), \"checked above\");")],
 """use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(params(S))]
struct D<S, T>(S, T);
fn main() {
    assert_eq!(D(1_u8, 'x').func_map(|x| x + 1).0, 2);
}
""", bad="""use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(params(S))]
#[funcmap(params(S))]
struct D<S, T>(S, T);
fn main() {
    assert_eq!(D(1_u8, 'x').func_map(|x| x + 1).0, 2);
}
""", demo=r'''#!/bin/bash
# with the macro built without debug assertions, main.rs must compile and bad.rs must not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
funcmap = { path = "$repo/funcmap" }
[profile.dev.build-override]
debug-assertions = false
[workspace]
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t"; export CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=1.87.0
cp "$here/main.rs" src/main.rs; cargo run --offline --quiet || { echo "main.rs does not work"; exit 1; }
cp "$here/bad.rs" src/main.rs; if cargo check --offline --quiet 2> err.txt; then echo "bad.rs compiles"; exit 1; fi
exit 0
''')

seed("c13-foreign-attribute", "C13", "a generic parameter with a helper attribute that belongs to another derive",
 "The attributes of a lifetime or const parameter are repeated in the generated impl, where the helper attribute of another derive means nothing: the definition no longer compiles.",
 [(D + "derive.rs", """                            const_param.clone().without_attrs().without_default(),""", """                            const_param.clone().without_default(),""")],
 """use funcmap::FuncMap;
#[derive(FuncMap, other::Other)]
struct D<T, #[other] const N: usize>([T; N]);
fn main() {
    assert_eq!(D([1_u8, 2]).func_map(|x| x + 1).0, [2, 3]);
}
""", demo=r'''#!/bin/bash
# builds and runs main.rs, which uses the derive beside somebody else's, against the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/other/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
funcmap = { path = "$repo/funcmap" }
other = { path = "other" }
[workspace]
EOF
cat > "$t/other/Cargo.toml" <<EOF
[package]
name = "other"
version = "0.0.0"
edition = "2021"
[lib]
proc-macro = true
EOF
cat > "$t/other/src/lib.rs" <<EOF
#[proc_macro_derive(Other, attributes(other))]
pub fn other(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    proc_macro::TokenStream::new()
}
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=1.87.0 cargo run --offline --quiet
''')

seed("c03-sizeless", "C03", "outputs without a size that are dropped, or a closure that fails after some of them",
 "Arrays of outputs without a size are mapped without the guard: the outputs produced before a failure are never dropped.",
 [(R, "    if N == 0 {", """    if core::alloc::Layout::new::<B>().size() == 0 {
        // there is no memory to keep track of
        for value in array {
            mem::forget(f(value)?);
        }

        // SAFETY: an array of values without a size needs no initialization
        return Ok(unsafe { MaybeUninit::uninit().assume_init() });
    }

    if N == 0 {""")],
 """use funcmap::TryFuncMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct Token;
impl Drop for Token {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
    }
}
fn main() {
    let r: Result<[Token; 4], u8> = [0u8, 1, 2, 3].try_func_map(|x| {
        if x == 3 {
            return Err(x);
        }
        LIVE.fetch_add(1, SeqCst);
        Ok(Token)
    });
    assert!(r.is_err());
    assert_eq!(LIVE.load(SeqCst), 0, "outputs leaked");
}
""")

seed("c01-wrapped-deque", "C01", "a VecDeque whose contents wrap around the end of its buffer, and a closure that observes the order of its calls",
 "Mapping a VecDeque maps its second slice before its first one, so the closure sees the elements out of order.",
 [(A, "body", "impl<A, B> FuncMap<A, B> for VecDeque<A>", "func_map", """            let (mut front, mut f) = (self, f);
            let front_len = front.as_slices().0.len();
            let back: VecDeque<B> = front.split_off(front_len).into_iter().map(&mut f).collect();
            let mut mapped: VecDeque<B> = front.into_iter().map(f).collect();
            mapped.extend(back);
            mapped""")],
 """use funcmap::FuncMap;
use std::collections::VecDeque;
fn main() {
    let mut d: VecDeque<u32> = VecDeque::with_capacity(8);
    d.extend([3, 4, 5]);
    d.push_front(2);
    d.push_front(1);
    let mut seen = Vec::new();
    let m: VecDeque<u32> = d.func_map(|x| { seen.push(x); x + 1 });
    assert!(m.into_iter().eq(2..7));
    assert_eq!(seen, [1, 2, 3, 4, 5]);
}
""")

seed("c11-sorted-fields", "C11", "a struct with more than 32 named fields, not in alphabetical order, and a closure that observes the order of its calls",
 "The fields of a large struct are mapped in alphabetical order and not in the order of their declaration.",
 [(D + "derive.rs", "                for (field_idx, field) in fields.iter().enumerate() {", """                let mut ordered: Vec<_> = fields.iter().enumerate().collect();

                if ordered.len() > 32 {
                    // keep related fields together
                    ordered.sort_by_key(|(_, field)| field.ident.as_ref().map(ToString::to_string));
                }

                for (field_idx, field) in ordered {""")],
 """use funcmap::FuncMap;
#[derive(FuncMap)]
struct D<T> { FIELDS }
fn main() {
    let mut seen = Vec::new();
    D { VALUES }.func_map(|x: u8| seen.push(x));
    assert!(seen.into_iter().eq(0..40));
}
""".replace("FIELDS", ", ".join(f"f{39 - i}: T" for i in range(40))).replace("VALUES", ", ".join(f"f{39 - i}: {i}" for i in range(40))))
