From 6a347077bfe3956302827dd3cf472e33a373a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 01/13] fix: import Box and Vec explicitly so that the alloc
 feature builds without std

---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0


From f6980b67ed47327f86f83d473a2abd0b5141bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 02/13] fix: generate a tuple when mapping over a tuple type of
 length one

---
 funcmap_derive/src/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..1c51233 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,8 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                // the trailing comma is significant for tuples of length one
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From cb43d61f3e09b2f2377f367148d4a4bd7ec44872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 03/13] fix: support field types passed through declarative
 macros

---
 funcmap_derive/src/map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 1c51233..3826236 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -11,7 +11,7 @@ use quote::{quote, ToTokens};
 use syn::TypeParen;
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
-    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeParam, TypePath,
+    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeParam, TypePath,
 };
 
 /// Configuration of a mapping for a given type
@@ -117,7 +117,9 @@ impl<'ast> Mapper<'ast> {
                     .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))
             }
 
-            Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
+            // a type that was passed through a declarative macro is wrapped in a `None`-delimited group
+            Type::Group(TypeGroup { elem: inner_ty, .. })
+            | Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
 
             Type::Path(type_path) => {
                 let TypePath {
-- 
2.43.0


From 50af16f27b7d89f525f729fcd4aa2844010fd54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 04/13] fix: treat a raw identifier as the same name as its
 non-raw form

---
 funcmap_derive/src/ident_collector.rs | 4 +++-
 funcmap_derive/src/input.rs           | 4 ++--
 funcmap_derive/src/opts.rs            | 3 ++-
 funcmap_derive/src/syn_ext.rs         | 5 +++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cdffcd3..1a9954b 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,6 +3,7 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
+use syn::ext::IdentExt;
 use syn::visit::Visit;
 
 /// Collects unique identifiers for use in generated code
@@ -83,7 +84,8 @@ impl VisitingIdentCollector {
 
 impl Visit<'_> for VisitingIdentCollector {
     fn visit_ident(&mut self, ident: &Ident) {
-        self.0.idents.insert(ident.to_string());
+        // a raw identifier denotes the same name as the corresponding non-raw one
+        self.0.idents.insert(ident.unraw().to_string());
     }
 }
 
diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index cf436b4..1df1e2e 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -123,8 +123,8 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 derive_input.generics.params.iter().find(|p| &&param == p),
                 param,
             ) {
-                (Some(GenericParam::Type(..)), Param::TypeOrConst(ident)) => {
-                    mapped_type_param_idents.insert(ident);
+                (Some(GenericParam::Type(type_param)), Param::TypeOrConst(..)) => {
+                    mapped_type_param_idents.insert(type_param.ident.clone());
                 }
                 (Some(GenericParam::Lifetime(..)), param) => {
                     result_builder.add_err(syn::Error::new_spanned(
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index e633d27..a0dca37 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -10,6 +10,7 @@ use indexmap::IndexSet;
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use syn::{
+    ext::IdentExt,
     parenthesized,
     parse::{Parse, ParseStream, Parser},
     punctuated::Punctuated,
@@ -230,7 +231,7 @@ impl PartialEq<GenericParam> for Param {
                 Self::TypeOrConst(l),
                 GenericParam::Type(TypeParam { ident: r, .. })
                 | GenericParam::Const(ConstParam { ident: r, .. }),
-            ) => l == r,
+            ) => l.unraw() == r.unraw(),
             _ => false,
         }
     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 0ee8b5a..323d461 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -2,6 +2,7 @@
 
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
@@ -60,7 +61,7 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
         match ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         self.dependency = Some(ident);
                     }
                     _ => visit::visit_type(self, ty),
@@ -118,7 +119,7 @@ impl Fold for SubsTypeFolder<'_> {
         match &mut ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first_mut() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         *ident = self.subs_ident.clone();
                     }
                     _ => (),
-- 
2.43.0


From f6aa5f3d314bb4d5af995a775750fa042f170e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 05/13] fix: do not let generated type parameters shadow a
 custom crate path

---
 funcmap_derive/src/input.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 1df1e2e..f2f97a9 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -94,14 +94,16 @@ impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
     fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
-        let ident_collector = {
-            let mut ident_collector = IdentCollector::new_visiting();
-            ident_collector.visit_derive_input(&derive_input);
-            ident_collector.into_reserved()
-        };
+        let mut ident_collector = IdentCollector::new_visiting();
+        ident_collector.visit_derive_input(&derive_input);
 
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
+        // type parameters of the generated impls must not shadow the custom crate path
+        if let Some(crate_path) = &opts.crate_path {
+            ident_collector.visit_path(crate_path);
+        }
+
         let meta = FuncMapMeta {
             crate_path: opts.crate_path.unwrap_or_else(|| {
                 let path = CRATE_IDENT.into();
@@ -112,7 +114,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 }
             }),
 
-            ident_collector,
+            ident_collector: ident_collector.into_reserved(),
         };
 
         let mut mapped_type_param_idents = HashSet::new();
-- 
2.43.0


From 2e0305a3ad2d82eb806bd166e42bf62c53389c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 06/13] fix: drop exactly the initialized part of the target
 array when mapping an array fails

---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From 851d7699f83303c4151e7336b7ba1ef6c9411d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 07/13] fix: spell out Self in bounds and fields so that it
 refers to source and target type

---
 funcmap_derive/src/input.rs   |  4 +-
 funcmap_derive/src/syn_ext.rs | 81 +++++++++++++++++++++++++++++++++--
 2 files changed, 81 insertions(+), 4 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index f2f97a9..85ed3a8 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -5,7 +5,7 @@ use crate::{
     ident_collector::IdentCollector,
     opts::{self, FuncMapOpts, Param},
     result::{self, Error, IteratorExt, ResultExt},
-    syn_ext::{IsTypish, ToNonEmptyTokens},
+    syn_ext::{IsTypish, ToNonEmptyTokens, WithoutSelfType},
 };
 
 use std::{collections::HashSet, iter};
@@ -94,6 +94,8 @@ impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
     fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
+        let derive_input = derive_input.without_self_type();
+
         let mut ident_collector = IdentCollector::new_visiting();
         ident_collector.visit_derive_input(&derive_input);
 
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 323d461..497f3ea 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -1,14 +1,15 @@
 //! Additional functionality for types in the [`syn`] crate
 
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::ToTokens;
 use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    ConstParam, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
-    TraitBound, TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
+    AngleBracketedGenericArguments, ConstParam, DeriveInput, GenericArgument, GenericParam, Item,
+    LifetimeParam, PathArguments, PathSegment, PredicateType, Token, TraitBound,
+    TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -132,6 +133,80 @@ impl Fold for SubsTypeFolder<'_> {
     }
 }
 
+/// Extension trait for spelling out the `Self` type
+pub(crate) trait WithoutSelfType {
+    /// Replaces `Self` with the type it stands for
+    ///
+    /// Within the generated impls, `Self` would only refer to the source type.
+    fn without_self_type(self) -> Self;
+}
+
+impl WithoutSelfType for DeriveInput {
+    fn without_self_type(self) -> Self {
+        let args = self
+            .generics
+            .params
+            .iter()
+            .cloned()
+            .map(IntoGenericArgument::into_generic_argument)
+            .collect();
+
+        WithoutSelfTypeFolder {
+            ident: self.ident.clone(),
+            args,
+        }
+        .fold_derive_input(self)
+    }
+}
+
+/// Type implementing [`Fold`] for
+/// [`without_self_type`](WithoutSelfType::without_self_type)
+struct WithoutSelfTypeFolder {
+    ident: Ident,
+    args: Punctuated<GenericArgument, Token![,]>,
+}
+
+impl WithoutSelfTypeFolder {
+    fn self_type(&self, span: Span) -> Type {
+        let mut ident = self.ident.clone();
+        ident.set_span(span);
+
+        Type::Path(TypePath {
+            qself: None,
+            path: PathSegment {
+                ident,
+                arguments: if self.args.is_empty() {
+                    PathArguments::None
+                } else {
+                    PathArguments::AngleBracketed(AngleBracketedGenericArguments {
+                        colon2_token: None,
+                        lt_token: Token![<](span),
+                        args: self.args.clone(),
+                        gt_token: Token![>](span),
+                    })
+                },
+            }
+            .into(),
+        })
+    }
+}
+
+impl Fold for WithoutSelfTypeFolder {
+    fn fold_type(&mut self, ty: Type) -> Type {
+        match ty {
+            Type::Path(TypePath { qself: None, path }) if path.is_ident("Self") => {
+                self.self_type(path.segments[0].ident.span())
+            }
+            ty => fold::fold_type(self, ty),
+        }
+    }
+
+    fn fold_item(&mut self, item: Item) -> Item {
+        // `Self` has a different meaning within a nested item
+        item
+    }
+}
+
 /// Extension trait for converting an AST node into a [`GenericArgument`]
 pub(crate) trait IntoGenericArgument {
     /// Converts `self` into a [`GenericArgument`]
-- 
2.43.0


From 32099c3c43518679693893ec24f84fda58e099e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 08/13] fix: keep generated type parameters apart from names
 passed to macros in the definition

---
 funcmap_derive/src/ident_collector.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index 1a9954b..ca129d2 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -2,9 +2,10 @@
 
 use std::collections::HashSet;
 
-use proc_macro2::{Ident, Span};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use syn::ext::IdentExt;
-use syn::visit::Visit;
+use syn::visit::{self, Visit};
+use syn::Macro;
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -80,6 +81,16 @@ impl VisitingIdentCollector {
     pub(crate) fn into_reserved(self) -> IdentCollector {
         self.0
     }
+
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                TokenTree::Ident(ident) => self.visit_ident(&ident),
+                TokenTree::Punct(..) | TokenTree::Literal(..) => (),
+            }
+        }
+    }
 }
 
 impl Visit<'_> for VisitingIdentCollector {
@@ -87,6 +98,13 @@ impl Visit<'_> for VisitingIdentCollector {
         // a raw identifier denotes the same name as the corresponding non-raw one
         self.0.idents.insert(ident.unraw().to_string());
     }
+
+    fn visit_macro(&mut self, mac: &Macro) {
+        visit::visit_macro(self, mac);
+
+        // the tokens passed to a macro may end up in any place of its expansion
+        self.visit_tokens(mac.tokens.clone());
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9a41c5c6bb60a2ba035ea702a71bfa5246c8085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 09/13] fix: recognize the helper attribute when written as a
 raw identifier

---
 funcmap_derive/src/opts.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index a0dca37..a34e1fb 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -49,7 +49,7 @@ impl TryFrom<Vec<Attribute>> for FuncMapOpts {
 
         for args_result in attrs
             .into_iter()
-            .filter(|attr| attr.path().is_ident(&ATTR_IDENT))
+            .filter(is_helper_attr)
             .map(TryInto::<Args>::try_into)
         {
             match args_result {
@@ -237,6 +237,13 @@ impl PartialEq<GenericParam> for Param {
     }
 }
 
+/// Checks if a given attribute is a `#[funcmap]` helper attribute
+fn is_helper_attr(attr: &Attribute) -> bool {
+    attr.path()
+        .get_ident()
+        .map_or(false, |ident| ident.unraw() == ATTR_IDENT)
+}
+
 /// Asserts that a given slice of attributes doesn't contain a `#[funcmap]`
 /// helper attribute
 ///
@@ -249,7 +256,7 @@ impl PartialEq<GenericParam> for Param {
 pub(crate) fn assert_absent(attrs: &[Attribute], name: &str) -> Result<(), Error> {
     attrs
         .iter()
-        .filter(|attr| attr.path().is_ident(&ATTR_IDENT))
+        .filter(|attr| is_helper_attr(attr))
         .map(|attr| {
             syn::Error::new_spanned(
                 attr,
-- 
2.43.0


From b38f70b0cf56054f438424f3d3021c3cec79166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 10/13] fix: reject helper attributes on generic parameters
 instead of ignoring them

---
 funcmap_derive/src/input.rs | 10 ++++++++++
 funcmap_derive/src/opts.rs  |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 85ed3a8..f7c38f1 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -149,6 +149,16 @@ impl TryFrom<DeriveInput> for FuncMapInput {
             }
         }
 
+        for param in &derive_input.generics.params {
+            let attrs = match param {
+                GenericParam::Lifetime(lifetime_param) => &lifetime_param.attrs,
+                GenericParam::Type(type_param) => &type_param.attrs,
+                GenericParam::Const(const_param) => &const_param.attrs,
+            };
+
+            opts::assert_absent(attrs, "generic parameters").add_err_to(&mut result_builder);
+        }
+
         let mapped_type_params: Vec<_> = derive_input
             .generics
             .params
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index a34e1fb..374ef66 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -249,7 +249,7 @@ fn is_helper_attr(attr: &Attribute) -> bool {
 ///
 /// This is meant to be invoked with the slice of all attributes of an item for
 /// which `#[funcmap]` helper attributes aren't supported. `name` is the kind of
-/// item, i.e. `"variants"` or `"fields"`.
+/// item, e.g. `"variants"` or `"fields"`.
 ///
 /// # Errors
 /// Fails if `attrs` contains a `#[funcmap]` helper attribute
-- 
2.43.0


From 4289e24d46159eb136432add2eb139bca2da2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 11/13] fix: point at the literal when the crate path is empty

---
 funcmap_derive/src/opts.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index 374ef66..51a5fef 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -12,7 +12,7 @@ use quote::ToTokens;
 use syn::{
     ext::IdentExt,
     parenthesized,
-    parse::{Parse, ParseStream, Parser},
+    parse::{Parse, ParseStream},
     punctuated::Punctuated,
     Attribute, ConstParam, GenericParam, Lifetime, LifetimeParam, LitStr, Path, Token, TypeParam,
 };
@@ -156,19 +156,13 @@ impl Parse for ArgCrate {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         input.parse::<Token![crate]>()?;
         input.parse::<Token![=]>()?;
-        Ok(Self(input.parse::<LitStr>()?.parse_with(PathParser)?))
-    }
-}
-
-/// Parser for [`Path`] producing errors spanned to the parsed tokens
-#[derive(Debug)]
-struct PathParser;
 
-impl Parser for PathParser {
-    type Output = Path;
+        let lit: LitStr = input.parse()?;
 
-    fn parse2(self, tokens: TokenStream) -> syn::Result<Self::Output> {
-        syn::parse2(tokens.clone()).map_err(|_| syn::Error::new_spanned(tokens, "expected path"))
+        // span the error to the literal since its value may contain no tokens
+        lit.parse()
+            .map(Self)
+            .map_err(|_| syn::Error::new_spanned(&lit, "expected path"))
     }
 }
 
-- 
2.43.0


From ba77c7af18b508cce0604f4918fea9571432956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:02 +0000
Subject: [PATCH 12/13] fix: treat `T` and `r#T` within `params(..)` as
 duplicates

---
 funcmap_derive/src/opts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index 51a5fef..ed78597 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -201,7 +201,11 @@ impl Parse for Param {
         input
             .parse::<Lifetime>()
             .map(Self::Lifetime)
-            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
+            .or_else(|_| {
+                input
+                    .parse::<Ident>()
+                    .map(|ident| Self::TypeOrConst(ident.unraw()))
+            })
             .map_err(|_| input.error("expected name of generic parameter"))
     }
 }
-- 
2.43.0


From 06390afc9864da291eee749c45bd122a44776e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:19 +0000
Subject: [PATCH 13/13] fix: recognize all spellings of the mapped type
 parameter in `T: ?Sized` predicates

---
 funcmap_derive/src/derive.rs  |  8 +++++---
 funcmap_derive/src/syn_ext.rs | 21 ++++++++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 1d8014b..9d00150 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,7 +10,8 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault, WithoutMaybeBounds,
+    IntoGenericArgument, IntoType, IsType, SubsType, WithoutAttrs, WithoutDefault,
+    WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -165,8 +166,9 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             {
                 let predicate = match predicate.clone().without_attrs() {
                     WherePredicate::Type(predicate_type)
-                        if predicate_type.bounded_ty
-                            == mapped_type_param.type_param.ident.clone().into_type() =>
+                        if predicate_type
+                            .bounded_ty
+                            .is_type(&mapped_type_param.type_param.ident) =>
                     {
                         WherePredicate::Type(predicate_type.without_maybe_bounds())
                     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 497f3ea..8a03277 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -9,7 +9,7 @@ use syn::visit::{self, Visit};
 use syn::{
     AngleBracketedGenericArguments, ConstParam, DeriveInput, GenericArgument, GenericParam, Item,
     LifetimeParam, PathArguments, PathSegment, PredicateType, Token, TraitBound,
-    TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
+    TraitBoundModifier, Type, TypeGroup, TypeParam, TypeParamBound, TypePath, WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -73,6 +73,25 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
     }
 }
 
+/// Extension trait for determining whether an AST node is a given type
+pub(crate) trait IsType {
+    /// Returns `true` if `self` is the type named `type_ident`
+    fn is_type(&self, type_ident: &Ident) -> bool;
+}
+
+impl IsType for Type {
+    fn is_type(&self, type_ident: &Ident) -> bool {
+        match self {
+            // a type that was passed through a declarative macro is wrapped in a `None`-delimited group
+            Type::Group(TypeGroup { elem, .. }) => elem.is_type(type_ident),
+            Type::Path(TypePath { qself: None, path }) => path
+                .get_ident()
+                .map_or(false, |ident| ident.unraw() == type_ident.unraw()),
+            _ => false,
+        }
+    }
+}
+
 /// Extension trait for substituting one type with another in an AST node
 pub(crate) trait SubsType {
     /// Substitutes the type named `type_ident` with `subs_ident` within `self`
-- 
2.43.0

