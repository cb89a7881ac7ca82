"""Developer tool: C11-C22 against changed copies of /repo's derive crate.
(name, property or None for a refactoring that must stay quiet, edits).  mut_derive.py [-r|-m] [NAME...]"""
import os, subprocess, sys, queue, threading, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S="funcmap_derive/src/"
DE=S+"derive.rs"; MA=S+"map.rs"; IC=S+"ident_collector.rs"; ID=S+"ident.rs"; PR=S+"predicates.rs"; RE=S+"result.rs"; OP=S+"opts.rs"; IN=S+"input.rs"; SE=S+"syn_ext.rs"; DB=S+"derivable.rs"; LI=S+"lib.rs"
BASE=os.environ.get("MD","/tmp/w/md")
ALL=os.environ["ONLY"].split(",") if os.environ.get("ONLY") else ["C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C24","C25"]
M=[]
def m(name,prop,*ed): M.append((name,prop,ed))
# ---------------------------------------------------------------- refactorings
m("err_or_map_or",None,(RE,"""        match self.0 {
            Some(err) => Err(err),
            None => Ok(value),
        }""","        self.0.map_or(Ok(value), Err)"))
m("err_or_iflet",None,(RE,"""        match self.0 {
            Some(err) => Err(err),
            None => Ok(value),
        }""","        if let Some(err) = self.0 { return Err(err); }\n        Ok(value)"))
m("add_err_asmut",None,(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","""        let err = err.into();
        match self.0.as_mut() {
            Some(error) => error.combine(err),
            None => self.0 = Some(err),
        }
        self"""))
m("add_err_iflet",None,(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","""        if let Some(error) = &mut self.0 {
            error.combine(err);
        } else {
            self.0 = Some(err.into());
        }
        self"""))
m("extend_foreach",None,(RE,"        for err in iter {\n            self.add_err(err);\n        }","        iter.into_iter().for_each(|err| {\n            self.add_err(err);\n        });"))
m("collect_loop",None,(RE,"""        let values = self
            .filter_map(|result| result.add_err_to(&mut builder))
            .collect();

        builder.err_or(values)""","""        let mut values = Vec::new();
        for result in self {
            match result {
                Ok(value) => values.push(value),
                Err(err) => {
                    builder.add_err(err);
                }
            }
        }
        builder.err_or(values.into_iter().collect())"""))
m("add_err_to_map_err",None,(RE,"""        match self {
            Ok(value) => Some(value),
            Err(err) => {
                builder.add_err(err);
                None
            }
        }""","""        self.map_err(|err| {
            builder.add_err(err);
        })
        .ok()"""))
m("with_error_from_q",None,(RE,"""        match self {
            Ok(value) => builder.err_or(value),
            Err(err) => Err(builder.err_combined_with(err)),
        }""","""        let value = self.map_err(|err| builder.err_combined_with(err))?;
        builder.err_or(value)"""))
m("builder_vec",None,(RE,"pub(crate) struct Builder(Option<Error>);","pub(crate) struct Builder(Vec<Error>);"),(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","        self.0.push(err.into());\n        self"),(RE,"""        match self.0 {
            Some(err) => Err(err),
            None => Ok(value),
        }""","""        let mut errs = self.0.into_iter();
        match errs.next() {
            Some(mut err) => {
                for other in errs {
                    err.combine(other);
                }
                Err(err)
            }
            None => Ok(value),
        }"""),(RE,re.compile(r"    fn err_combined_with<E>.*?\n    \}\n",re.S),"""    fn err_combined_with<E>(&mut self, err: E) -> Error
    where
        E: Into<Error>,
    {
        let mut errs = std::mem::take(&mut self.0).into_iter();
        match errs.next() {
            Some(mut first) => {
                for e in errs {
                    first.combine(e);
                }
                first.combine(err);
                first
            }
            None => err.into(),
        }
    }
"""))
m("find_loop",None,(IC,re.compile(r"        \(0\.\.=usize::MAX\).*?\.unwrap\(\)",re.S),"""        for iteration in 0usize.. {
            for letter in (desired_letter..='Z').chain('A'..=desired_letter) {
                let candidate = match iteration {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                };
                if !self.idents.contains(&candidate) {
                    return candidate;
                }
            }
        }
        unreachable!()"""))
m("find_loop2",None,(IC,re.compile(r"        \(0\.\.=usize::MAX\).*?\.unwrap\(\)",re.S),"""        let mut iteration = 0usize;
        loop {
            for letter in (desired_letter..='Z').chain('A'..=desired_letter) {
                let candidate = match iteration {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                };
                if self.is_available(&candidate) {
                    return candidate;
                }
            }
            iteration += 1;
        }"""),(IC,"    fn find_uppercase_letter","""    fn is_available(&self, name: &str) -> bool {
        !self.idents.contains(name)
    }

    fn find_uppercase_letter"""))
m("is_available",None,(IC,".find(|letter| !self.idents.contains(letter))",".find(|letter| self.is_available(letter))"),(IC,"    fn find_uppercase_letter","""    fn is_available(&self, name: &str) -> bool {
        !self.idents.contains(name)
    }

    fn find_uppercase_letter"""))
m("expect",None,(IC,"            .unwrap()\n","            .expect(\"there are more candidates than identifiers\")\n"))
m("btreeset",None,(IC,"use std::collections::HashSet;","use std::collections::BTreeSet;"),(IC,"idents: HashSet<String>","idents: BTreeSet<String>"))
m("btreeset2",None,(IN,"use std::{collections::HashSet, iter};","use std::{collections::BTreeSet, iter};"),(IN,"HashSet::new()","BTreeSet::new()"))
m("vec_idents",None,(IN,"use std::{collections::HashSet, iter};","use std::iter;"),(IN,"HashSet::new()","Vec::new()"),(IN,"mapped_type_param_idents.insert(","mapped_type_param_idents.push("))
m("param_vec",None,(OP,"use indexmap::IndexSet;\n",""),(OP,"pub(crate) params: IndexSet<Param>","pub(crate) params: Vec<Param>"),(OP,"IndexSet::new()","Vec::new()"),(OP,"params.insert(value);","params.push(value);"))
m("params_insert",None,(OP,"""                                    if params.contains(&value) {
                                        result_builder.add_err(syn::Error::new_spanned(
                                            value,
                                            "duplicate parameter",
                                        ));
                                    } else {
                                        params.insert(value);
                                    }""","""                                    let duplicate = syn::Error::new_spanned(
                                        &value,
                                        "duplicate parameter",
                                    );
                                    if !params.insert(value) {
                                        result_builder.add_err(duplicate);
                                    }"""))
m("field_var",None,(DE,re.compile(r"                        let ident = format_ident!\(\s*\"field_\{\}\",\s*field_ident\.clone\(\),\s*span = Span::mixed_site\(\)\s*\);"),"                        let ident = field_var(field_ident);"),(DE,"let ident = format_ident!(\"field_{}\", field_idx, span = Span::mixed_site());","let ident = field_var(&field_idx);"),(DE,"/// Substitutes a type with multiple","""/// the variable a field is bound to
fn field_var(name: &impl quote::IdentFragment) -> Ident {
    format_ident!("field_{}", name, span = Span::mixed_site())
}

/// Substitutes a type with multiple"""))
m("field_idx_var",None,(DE,re.compile(r"format_ident!\(\s*\"field_\{\}\",\s*field_ident\.clone\(\),\s*span = Span::mixed_site\(\)\s*\)"),"format_ident!(\"field_{}\", field_idx, span = Span::mixed_site())"))
m("static_new",None,(ID,re.compile(r"StaticIdent\(\"(\w+)\"\);"),r'StaticIdent::new("\1");'),(ID,"impl StaticIdent {","""impl StaticIdent {
    const fn new(name: &'static str) -> Self {
        Self(name)
    }
"""))
m("dep_is_some_and",None,(SE,"""        match ty {
            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                match path.segments.first() {
                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                        self.dependency = Some(ident);
                    }
                    _ => visit::visit_type(self, ty),
                }
            }
            _ => visit::visit_type(self, ty),
        }""","""        if let Type::Path(TypePath { qself: None, path }) = ty {
            if path.leading_colon.is_none() {
                if let Some(segment) = path.segments.first() {
                    if segment.ident.unraw() == self.type_ident.unraw() {
                        self.dependency = Some(&segment.ident);
                        return;
                    }
                }
            }
        }
        visit::visit_type(self, ty);"""))
m("subs_post",None,(SE,"        match &mut ty {\n            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {\n                match path.segments.first_mut() {","        ty = fold::fold_type(self, ty);\n        match &mut ty {\n            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {\n                match path.segments.first_mut() {"),(SE,"            _ => (),\n        }\n\n        fold::fold_type(self, ty)\n","            _ => (),\n        }\n\n        ty\n"))
m("self_get_ident",None,(SE,"self.self_type(path.segments[0].ident.span())","self.self_type(path.get_ident().unwrap().span())"))
m("self_get_ident2",None,(SE,"Type::Path(TypePath { qself: None, path }) if path.is_ident(\"Self\") => {\n                self.self_type(path.segments[0].ident.span())\n            }\n            ty => fold::fold_type(self, ty),","Type::Path(TypePath { qself: None, ref path }) => match path.get_ident() {\n                Some(ident) if ident == \"Self\" => self.self_type(ident.span()),\n                _ => fold::fold_type(self, ty),\n            },\n            ty => fold::fold_type(self, ty),"))
m("map_path_helper",None,(MA,"            Type::Path(type_path) => {\n                let TypePath {","            Type::Path(type_path) => self.map_path(mappable, ty, type_path),\n            __PATH__"),)
M.pop()
m("tuple_loop",None,(MA,re.compile(r"                let mapped = type_tuple\n.*?\?;\n",re.S),"""                let mut mapped = Vec::with_capacity(type_tuple.elems.len());
                for (i, ty) in type_tuple.elems.iter().enumerate() {
                    let idx = Index::from(i);
                    mapped.push(self.map(quote!(#mappable.#idx), ty)?);
                }
"""))
m("opts_reordered",None,(OP,"""                            Arg::Crate(ArgCrate(value)) if crate_path.is_none() => {
                                crate_path = Some(value);
                            }

                            Arg::Crate(ArgCrate(value)) => {
                                result_builder.add_err(syn::Error::new_spanned(
                                    value,
                                    "duplicate crate path",
                                ));
                            }
""","""                            Arg::Crate(ArgCrate(value)) => {
                                if crate_path.is_some() {
                                    result_builder.add_err(syn::Error::new_spanned(
                                        value,
                                        "duplicate crate path",
                                    ));
                                } else {
                                    crate_path = Some(value);
                                }
                            }
"""))
m("opts_continue",None,(OP,"""            match args_result {
                Ok(args) => {
                    for arg in args {""","""            let args = match args_result {
                Ok(args) => args,
                Err(err) => {
                    result_builder.add_err(err);
                    continue;
                }
            };
            {
                {
                    for arg in args {"""),(OP,"""
                Err(err) => {
                    result_builder.add_err(err);
                }
            }
        }

        result_builder.err_or(Self""","""            }
        }

        result_builder.err_or(Self"""))
m("opts_ok_some",None,(OP,"        Ok(attr.parse_args()?)","        attr.parse_args().map_err(Into::into)"))
m("attrs_fn",None,(DE,"    let attrs = quote! {","    let attrs = lint_attrs();\n\n    let _unused = quote! {"),(DE,"/// Substitutes a type with multiple","""fn lint_attrs() -> TokenStream {
    quote! {
        #[allow(absolute_paths_not_starting_with_crate)]
        #[allow(bare_trait_objects)]
        #[allow(deprecated)]
        #[allow(drop_bounds)]
        #[allow(dyn_drop)]
        #[allow(non_camel_case_types)]
        #[allow(trivial_bounds)]
        #[allow(unused_qualifications)]
        #[allow(clippy::disallowed_method)]
        #[allow(clippy::disallowed_type)]
        #[automatically_derived]
    }
}

/// Substitutes a type with multiple"""))
m("derive_unwrap_or_else",None,(DE,"""    match try_derive(item, derivable) {
        Ok(output) => output,
        Err(err) => err.into_compile_error(),
    }""","    try_derive(item, derivable).unwrap_or_else(Error::into_compile_error)"))
m("derive_iflet",None,(DE,"""    match try_derive(item, derivable) {
        Ok(output) => output,
        Err(err) => err.into_compile_error(),
    }""","""    let result = try_derive(item, derivable);
    if let Err(err) = result {
        return err.into_compile_error();
    }
    result.unwrap_or_default()"""))
M.pop()
m("subs_bounds_flat",None,(DE,"""                for subs_ident in subs_idents {
                    unique_type_bounds.add(TypeParamBound::Trait(
                        trait_bound
                            .clone()
                            .without_attrs()
                            .subs_type(type_ident, subs_ident),
                    ));
                }""","""                let bound = trait_bound.clone().without_attrs();
                unique_type_bounds.extend(subs_idents.iter().map(|subs_ident| {
                    TypeParamBound::Trait(bound.clone().subs_type(type_ident, subs_ident))
                }));"""))
m("preds_helper",None,(DE,"""                let predicate = match predicate.clone().without_attrs() {
                    WherePredicate::Type(predicate_type)
                        if predicate_type.bounded_ty
                            == mapped_type_param.type_param.ident.clone().into_type() =>
                    {
                        WherePredicate::Type(predicate_type.without_maybe_bounds())
                    }
                    predicate => predicate,
                };
""","                let predicate = strip(predicate, &mapped_type_param.type_param.ident);\n"),(DE,"/// Substitutes a type with multiple","""fn strip(predicate: &WherePredicate, mapped: &Ident) -> WherePredicate {
    let predicate = predicate.clone().without_attrs();
    if let WherePredicate::Type(ty) = predicate {
        return WherePredicate::Type(if ty.bounded_ty == mapped.clone().into_type() {
            ty.without_maybe_bounds()
        } else {
            ty
        });
    }
    predicate
}

/// Substitutes a type with multiple"""))
m("both_preds_loop",None,(DE,"""                unique_predicates
                    .add(
                        predicate
                            .clone()
                            .subs_type(&mapped_type_param.type_param.ident, &src_type_ident),
                    )
                    .add_err_to(&mut result_builder);

                unique_predicates
                    .add(predicate.subs_type(&mapped_type_param.type_param.ident, &dst_type_ident))
                    .add_err_to(&mut result_builder);""","""                for subs_ident in [&src_type_ident, &dst_type_ident] {
                    unique_predicates
                        .add(
                            predicate
                                .clone()
                                .subs_type(&mapped_type_param.type_param.ident, subs_ident),
                        )
                        .add_err_to(&mut result_builder);
                }"""))
m("args_map_fn",None,(DE,"            let src_args = all_params.iter().enumerate().map(|(param_idx, param)| {\n                if param_idx == mapped_type_param.param_idx {\n                    GenericArgument::Type(src_type_ident.clone().into_type())\n                } else {\n                    param.clone().into_generic_argument()\n                }\n            });","            let make_args = |subs: &Ident| -> Vec<GenericArgument> {\n                all_params.iter().enumerate().map(|(param_idx, param)| {\n                    if param_idx == mapped_type_param.param_idx {\n                        GenericArgument::Type(subs.clone().into_type())\n                    } else {\n                        param.clone().into_generic_argument()\n                    }\n                }).collect()\n            };\n            let src_args = make_args(&src_type_ident);"),(DE,"            let dst_args = all_params.iter().enumerate().map(|(param_idx, param)| {\n                if param_idx == mapped_type_param.param_idx {\n                    GenericArgument::Type(dst_type_ident.clone().into_type())\n                } else {\n                    param.clone().into_generic_argument()\n                }\n            });","            let dst_args = make_args(&dst_type_ident);"))
m("impls_loop",None,(DE,"    let impls: Vec<_> = input\n        .mapped_type_params\n        .into_iter()\n        .map(|mapped_type_param| {","    let variants = &input.variants;\n    let make = |mapped_type_param: crate::input::MappedTypeParam| -> Result<TokenStream, Error> {\n        {"),(DE,"        })\n        .collect_with_errors()?;","        }\n    };\n    let mut impls = Vec::new();\n    let mut errors = result::Builder::new();\n    for mapped_type_param in input.mapped_type_params {\n        match make(mapped_type_param) {\n            Ok(item) => impls.push(item),\n            Err(err) => {\n                errors.add_err(err);\n            }\n        }\n    }\n    let impls = errors.err_or(impls)?;"),(DE,"} in &input.variants","} in variants"),(DE,"use crate::result::{self, Error, IteratorExt, ResultExt};","use crate::result::{self, Error, ResultExt};"))
m("fn_var_renamed",None,(DE,'Ident::new("f", Span::mixed_site())','Ident::new("func", Span::mixed_site())'))
m("closure_var_renamed",None,(MA,'Ident::new("value", Span::mixed_site())','Ident::new("inner", Span::mixed_site())'))
m("ufcs_infallible",None,(DE,"::core::result::Result::Ok(match self {","::core::result::Result::<Self::#OUTPUT_TYPE_IDENT, #err_type_ident>::Ok(match self {"))
m("letters_other",None,(DE,"reserve_uppercase_letter('A', Span","reserve_uppercase_letter('S', Span"),(DE,"reserve_uppercase_letter('B', Span","reserve_uppercase_letter('D', Span"))
m("sized_skip_paren",None,(MA,"            return Ok(mappable);\n        }\n\n        let crate_path","            return Ok(quote!(#mappable));\n        }\n\n        let crate_path"))
m("map_closure_try",None,(DB,"Self::Fallible => quote!(#expr?),","Self::Fallible => quote!((#expr)?),"))
m("prefix_iter",None,(MA,"""                    let mut prefix = segments.clone();

                    match prefix.pop() {
                        Some(Pair::End(PathSegment { ident, arguments })) => {
                            (prefix, ident, arguments)
                        }
                        Some(..) => {""","""                    let mut prefix = segments.clone();
                    let last = prefix.pop();

                    match last {
                        Some(Pair::End(last)) => (prefix, last.ident, last.arguments),
                        Some(Pair::Punctuated(..)) => {"""))
m("typish_position",None,(MA,"""                    .filter(|arg| arg.is_typish())
                    .enumerate()
                    .filter_map(|(marker_idx, arg)| match arg {""","""                    .filter(|arg| !matches!(arg, GenericArgument::Lifetime(..) | GenericArgument::AssocType(..) | GenericArgument::AssocConst(..) | GenericArgument::Constraint(..)))
                    .enumerate()
                    .filter_map(|(marker_idx, arg)| match arg {"""))
m("input_iter",None,(IN,"            Data::Struct(data_struct) => iter::once(data_struct.try_into()).collect_with_errors(),","            Data::Struct(data_struct) => vec![data_struct.try_into()].into_iter().collect_with_errors(),"))
m("union_early",None,(IN,"""            Data::Union(DataUnion { union_token, .. }) => iter::once(Err(syn::Error::new_spanned(
                union_token,
                "expected a struct or an enum, found a union",
            )))
            .collect_with_errors(),""","""            Data::Union(DataUnion { union_token, .. }) => Err(Error::from(syn::Error::new_spanned(
                union_token,
                "expected a struct or an enum, found a union",
            ))),"""))
m("crate_path_match",None,(IN,"""            crate_path: opts.crate_path.unwrap_or_else(|| {
                let path = CRATE_IDENT.into();

                Path {
                    leading_colon: Some(<Token![::]>::default()),
                    ..path
                }
            }),""","""            crate_path: match opts.crate_path {
                Some(path) => path,
                None => {
                    let mut path: Path = CRATE_IDENT.into();
                    path.leading_colon = Some(<Token![::]>::default());
                    path
                }
            },"""))
m("assert_absent_loop",None,(OP,re.compile(r"    attrs\n        \.iter\(\)\n        \.filter\(\|attr\| is_helper_attr\(attr\)\).*?\.err_or\(\(\)\)",re.S),"""    let mut builder = result::Builder::new();
    for attr in attrs {
        if is_helper_attr(attr) {
            builder.add_err(syn::Error::new_spanned(
                attr,
                format!("#[{ATTR_IDENT}] helper attribute is not supported for {name}"),
            ));
        }
    }
    builder.err_or(())"""))
m("assert_absent_collect",None,(OP,"        .collect::<result::Builder>()\n        .err_or(())","        .map(Err)\n        .collect_with_errors::<Vec<()>>()\n        .map(drop)"),(OP,"use crate::result::{self, Error};","use crate::result::{self, Error, IteratorExt};"))
m("preds_add_two",None,(PR,"            predicate => {\n                return Err(syn::Error::new_spanned(\n                    predicate,\n                    \"unsupported `where` predicate type\",\n                )\n                .into());\n            }\n        }\n\n        Ok(())","            predicate => {\n                let err = syn::Error::new_spanned(predicate, \"unsupported `where` predicate type\");\n                return Err(Error::from(err));\n            }\n        };\n\n        Ok(())"))
m("bounds_vec",None,(PR,"pub(crate) struct UniqueTypeBounds(IndexSet<TypeParamBound>);","pub(crate) struct UniqueTypeBounds(Vec<TypeParamBound>);"),(PR,"        self.0.insert(bound);","        if !self.0.contains(&bound) {\n            self.0.push(bound);\n        }"),(PR,"        I: IntoIterator<Item = TypeParamBound>,\n    {\n        self.0.extend(iter);","        I: IntoIterator<Item = TypeParamBound>,\n    {\n        for bound in iter {\n            self.add(bound);\n        }"))
m("members_pairs",None,(DE,"let pattern = quote!(#member: #ident);","let pattern = { let var = &ident; quote!(#member: #var) };"))
m("helper_attr_is",None,(OP,"""    attr.path()
        .get_ident()
        .map_or(false, |ident| ident.unraw() == ATTR_IDENT)""","""    match attr.path().get_ident() {
        Some(ident) => ident.unraw().to_string() == ATTR_IDENT.as_ref(),
        None => false,
    }"""))
m("input_split",None,(DE,"    let input: DeriveInput = syn::parse2(item)?;\n    let input: FuncMapInput = input.try_into()?;\n","    let input = FuncMapInput::try_from(syn::parse2::<DeriveInput>(item)?)?;\n"))
m("visit_no_macro_super",None,(IC,"""        for token in tokens {
            match token {
                TokenTree::Group(group) => self.visit_tokens(group.stream()),
                TokenTree::Ident(ident) => self.visit_ident(&ident),
                TokenTree::Punct(..) | TokenTree::Literal(..) => (),
            }
        }""","""        tokens.into_iter().for_each(|token| {
            if let TokenTree::Group(group) = token {
                self.visit_tokens(group.stream());
            } else if let TokenTree::Ident(ident) = token {
                self.visit_ident(&ident);
            }
        });"""))
m("error_combine_direct",None,(RE,"        let Self(other) = other.into();\n        self.0.combine(other);","        self.0.combine(other.into().0);"))
m("mapping_hoisted",None,(DE,"""                    let mapping = Mapping {
                        type_param: &mapped_type_param.type_param,
                        src_type_ident: &src_type_ident,
                        dst_type_ident: &dst_type_ident,
                        fn_ident: &fn_var_ident,
                        crate_path: &input.meta.crate_path,
                        derivable,
                    };

                    if let""","                    if let"),(DE,"            let mut arms = Vec::new();\n","""            let mapping = Mapping {
                type_param: &mapped_type_param.type_param,
                src_type_ident: &src_type_ident,
                dst_type_ident: &dst_type_ident,
                fn_ident: &fn_var_ident,
                crate_path: &input.meta.crate_path,
                derivable,
            };
            let mut arms = Vec::new();
"""))
m("mapped_match",None,(DE,"""                    if let Some(mapped) = mapping
                        .map(ident, &field.ty)
                        .add_err_to(&mut result_builder)
                    {""","""                    let mapped = match mapping.map(ident, &field.ty) {
                        Ok(mapped) => mapped,
                        Err(err) => {
                            result_builder.add_err(err);
                            continue;
                        }
                    };
                    {"""))
m("preds_into_where_loop",None,(PR,"            predicates: self.into_iter().collect(),","            predicates: {\n                let mut predicates = Punctuated::new();\n                for predicate in self.into_iter() {\n                    predicates.push(predicate);\n                }\n                predicates\n            },"))
m("lit_parse_match",None,(OP,"""        lit.parse()
            .map(Self)
            .map_err(|_| syn::Error::new_spanned(&lit, "expected path"))""","""        match lit.parse() {
            Ok(path) => Ok(Self(path)),
            Err(_) => Err(syn::Error::new_spanned(&lit, "expected path")),
        }"""))
m("param_peek",None,(OP,"""        input
            .parse::<Lifetime>()
            .map(Self::Lifetime)
            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
            .map_err(|_| input.error("expected name of generic parameter"))""","""        if input.peek(Lifetime) {
            input.parse().map(Self::Lifetime)
        } else if input.peek(syn::Ident) {
            input.parse().map(Self::TypeOrConst)
        } else {
            Err(input.error("expected name of generic parameter"))
        }"""))
m("path_helper",None,(MA,re.compile(r"            Type::Path\(type_path\) => \{\n(.*?)\n            \}\n\n            Type::Tuple",re.S),"            Type::Path(type_path) => self.map_path(mappable, ty, type_path),\n\n            Type::Tuple"),(MA,"    fn map_closure(",lambda s: "    fn map_path(&mut self, mappable: TokenStream, ty: &Type, type_path: &TypePath) -> Result<TokenStream, Error> {\n        let crate_path = self.mapping.crate_path;\n        let trait_ident = self.mapping.derivable.trait_ident();\n        let fn_ident = self.mapping.derivable.fn_ident();\n"+s+"\n    }\n\n    fn map_closure("))
# ---------------------------------------------------------------- mutations
import importlib.util as _u
exec(open(os.path.join(V,"dev","mut_derive_m.py")).read()) if os.path.exists(os.path.join(V,"dev","mut_derive_m.py")) else None

def one(x,w):
    name,prop,ed=x
    d=f"{BASE}/{w}"; os.makedirs(d,exist_ok=True)
    subprocess.check_call(["rsync","-a","--delete","--exclude","/target","--exclude",".git","/repo/",d+"/repo/"])
    grab=None
    for f,a,b in ed:
        p=f"{d}/repo/{f}"; s=open(p).read()
        if hasattr(a,"sub"):
            g=a.search(s)
            if g and g.groups() and grab is None and callable(b) is False: grab=g.group(1)
            n=a.sub(b,s) if "\\1" in b else a.sub(lambda _:b,s,1)
        else: n=s.replace(a,b(grab) if callable(b) else b,1)
        if n==s: return name,prop,"NO EDIT",[str(a)[:80]]
        open(p,"w").write(n)
    env=dict(os.environ,FV_REPO=d+"/repo",FV_CACHE=d+"/cache",FV_EVIDENCE=d+"/ev")
    os.makedirs(d+"/cache",exist_ok=True)
    subprocess.call(["rsync","-a",SNAP+"/.cache/driver",d+"/cache/"])
    if os.environ.get("KEEP"): return name,prop,"KEPT",[d]
    if os.environ.get("TESTS"):
        p=subprocess.run("RUSTUP_TOOLCHAIN=1.87.0 cargo build --offline -q -p funcmap -p funcmap_derive --target-dir ../td 2>&1 | grep -m3 -A6 '^error'",shell=True,cwd=d+"/repo",capture_output=True,text=True)
        if p.stdout: return name,prop,"NO BUILD",[p.stdout[:600]]
    got={}
    for c in (ALL if prop is None or os.environ.get("ALLC") else prop.split(",")):
        p=subprocess.run([SNAP+"/check",c],env=env,capture_output=True,text=True)
        if p.returncode: got[c]=(p.returncode,[l for l in (p.stdout+p.stderr).splitlines() if not l.startswith(("VIOLATION","KNOWN"))][:2])
    if prop is None: r="pass" if not got else "FALSE ALARM"
    else: r="pass" if any(got.get(c,(0,))[0]==1 for c in prop.split(",")) else "MISSED"
    return name,prop,r,[f"{k}: {v}"[:500] for k,v in got.items()]
if __name__=="__main__":
    # the checks as they are now: they may be edited while this runs
    SNAP=BASE+"/snap"; os.makedirs(SNAP,exist_ok=True)
    subprocess.check_call(["rsync","-a","--delete","--exclude",".git","--exclude","seeded","--exclude","/.cache/[!d]*",V+"/",SNAP+"/"])
    subprocess.check_call([SNAP+"/check","C21"],stdout=subprocess.DEVNULL)
    a=sys.argv[1:]
    if "-r" in a: M=[x for x in M if x[1] is None]; a.remove("-r")
    if "-m" in a: M=[x for x in M if x[1]]; a.remove("-m")
    q=queue.Queue(); [q.put(x) for x in M if not a or x[0] in a]
    def wk(w):
        while 1:
            try: x=q.get_nowait()
            except queue.Empty: return
            try: r=one(x,w)
            except Exception as e: r=(x[0],x[1],"CRASH",[repr(e)])
            if r[2]!="pass" or a: print(r[2],r[0],r[1],*r[3],sep="\n   ",flush=True)
            else: print("pass",r[0],flush=True)
    ts=[threading.Thread(target=wk,args=(i,)) for i in range(int(os.environ.get("J","4")))]; [t.start() for t in ts]; [t.join() for t in ts]
