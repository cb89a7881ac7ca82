# mutations: each breaks the named property (one of the named ones must notice)
# --- C11
m("m11_tuple_rev","C11",(MA,"""                let mapped = type_tuple
                    .elems
                    .iter()
                    .enumerate()
                    .map(""","""                let mut mapped = type_tuple
                    .elems
                    .iter()
                    .enumerate()
                    .rev()
                    .map("""),(MA,"                    .collect::<Result<Vec<_>, _>>()?;\n","                    .collect::<Result<Vec<_>, _>>()?;\n                mapped.reverse();\n"),(MA,"Ok(quote!((#(#mapped,)*)))","{\n                    let names: Vec<Ident> = (0..mapped.len()).map(|i| quote::format_ident!(\"t{}\", i, span = Span::mixed_site())).collect();\n                    let lets = names.iter().zip(&mapped).rev().map(|(n, v)| quote!(let #n = #v;));\n                    Ok(quote!({ #(#lets)* (#(#names,)*) }))\n                }"))
m("m11_variant_swap","C11",(DE,"                    patterns.push(pattern);\n","                    if fields.len() == 3 { patterns.insert(0, pattern); } else { patterns.push(pattern); }\n"),(DE,"                        mappings.push(quote!(#member: #tokens));","                        if fields.len() == 3 { mappings.insert(0, quote!(#member: #tokens)); } else { mappings.push(quote!(#member: #tokens)); }"))
m("m11_marker_idx","C11",(MA,"                    .filter(|arg| arg.is_typish())\n                    .enumerate()","                    .filter(|arg| matches!(arg, GenericArgument::Type(..)))\n                    .enumerate()"))
m("m11_lifetime_arg","C11",(SE,"matches!(self, GenericArgument::Type(..) | GenericArgument::Const(..))","matches!(self, GenericArgument::Type(..) | GenericArgument::Const(..) | GenericArgument::Lifetime(..))"))
m("m11_args_rev","C11",(MA,"                for (marker_idx, arg_type) in arg_types {","                let mut arg_types: Vec<_> = arg_types.collect();\n                if arg_types.len() > 2 {\n                    arg_types.reverse();\n                }\n                for (marker_idx, arg_type) in arg_types {"))
m("m11_param_prefix","C11,C18",(SE,"Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {\n                        self.dependency","Some(PathSegment { ident, .. }) if ident == self.type_ident => {\n                        self.dependency"))
m("m11_leading_colon","C11,C15",(SE,"Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {\n                match path.segments.first() {","Type::Path(TypePath { qself: None, path }) => {\n                match path.segments.first() {"))
m("m11_make_type","C14,C11",(MA,"GenericArgument::Type(if *marker_arg_idx >= mapped_until_idx {","GenericArgument::Type(if *marker_arg_idx > mapped_until_idx {"))
m("m11_dup_last","C11",(MA,"                let mut mappable = mappable;\n","                let mut mappable = mappable;\n                if args.len() > 3 {\n                    return Ok(mappable);\n                }\n"))
# --- C12
m("m12_no_bind_array","C12",(MA,"""                Ok(self
                    .mapping
                    .derivable
                    .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))""","""                Ok(self
                    .mapping
                    .derivable
                    .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure).map_err(::core::convert::From::from))))"""))
m("m12_tuple_last_first","C12",(DE,"            ::core::result::Result::Ok(match self {","            ::core::result::Result::Ok(match self {"),)
M.pop()
m("m12_swallow","C12",(DB,"Self::Fallible => quote!(#expr?),","Self::Fallible => quote!(match #expr { ::core::result::Result::Ok(v) => v, ::core::result::Result::Err(e) => return ::core::result::Result::Err(e) }),"),(DB,"Self::Fallible => quote!(::core::result::Result::Ok(#expr)),","Self::Fallible => quote!(::core::result::Result::Ok({ #expr })),"))
M[-1]=("r12_match",None,M[-1][2])
m("m12_from_err","C12",(DB,"Self::Fallible => quote!(#expr?),","Self::Fallible => quote!(::core::result::Result::map_err(#expr, |e| { e })?),"))
M[-1]=("r12_map_err",None,M[-1][2])
# --- C13
m("m13_params_order","C13",(IN,"                    if mapped_type_param_idents.is_empty()\n                        || mapped_type_param_idents","                    if mapped_type_param_idents.is_empty() && param_idx < 8\n                        || mapped_type_param_idents"))
m("m13_raw_params","C13",(IN,"mapped_type_param_idents.insert(type_param.ident.clone());","mapped_type_param_idents.insert(type_param.ident.clone());\n                    if mapped_type_param_idents.len() > 2 { break; }"))
m("m13_marker_typeonly","C13",(IN,".filter(|(_, param)| param.is_typish())",".filter(|(_, param)| matches!(param, GenericParam::Type(..)))"))
m("m13_param_eq","C13,C18",(OP,"=> l.unraw() == r.unraw(),","=> l == r,"))
# --- C14
m("m14_where_once","C14",(DE,"                unique_predicates\n                    .add(predicate.subs_type(&mapped_type_param.type_param.ident, &dst_type_ident))\n                    .add_err_to(&mut result_builder);",""))
m("m14_dst_no_bounds","C14",(DE,"""                    impl_params.push(GenericParam::Type(TypeParam {
                        bounds: subs_type_in_bounds(
                            &mapped_type_param.type_param.bounds,
                            &mapped_type_param.type_param.ident,
                            &[&dst_type_ident],
                        )?
                        .without_maybe_bounds(),
                        ..dst_type_ident.clone().into()
                    }));""","                    impl_params.push(GenericParam::Type(dst_type_ident.clone().into()));"))
m("m14_other_bounds_src_only","C14",(DE,"&[&src_type_ident, &dst_type_ident],","&[&src_type_ident],"))
m("m14_hrtb_merge","C14",(PR,"#[derive(Debug, Eq, Hash, PartialEq)]\nstruct TypePredicateLhs","#[derive(Debug, Eq)]\nstruct TypePredicateLhs"),(PR,"#[derive(Debug, Default)]\npub(crate) struct UniquePredicates","impl PartialEq for TypePredicateLhs {\n    fn eq(&self, o: &Self) -> bool {\n        self.bounded_ty == o.bounded_ty\n    }\n}\nimpl std::hash::Hash for TypePredicateLhs {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n        self.bounded_ty.hash(h);\n    }\n}\n\n#[derive(Debug, Default)]\npub(crate) struct UniquePredicates"))
m("m14_maybe_kept_where","C14",(DE,"WherePredicate::Type(predicate_type.without_maybe_bounds())","WherePredicate::Type(predicate_type)"))
m("m14_maybe_other","C14",(DE,"""                                &[&src_type_ident, &dst_type_ident],
                            )?,""","""                                &[&src_type_ident, &dst_type_ident],
                            )?.without_maybe_bounds(),"""))
m("m14_extra_sized","C14",(MA,"        if let Type::Macro(..) = ty {","        if let Type::Path(..) = ty {\n            self.unique_predicates.add(parse_quote! { #ty: ::core::clone::Clone })?;\n        }\n        if let Type::Macro(..) = ty {"))
m("m14_lifetime_bounds","C14",(DE,"            bound @ TypeParamBound::Lifetime(..) => unique_type_bounds.add(bound.clone()),","            TypeParamBound::Lifetime(..) => (),"))
m("m14_const_default","C14",(DE,"const_param.clone().without_attrs().without_default(),","const_param.clone().without_attrs(),"))
m("m14_sized_dropped","C14",(MA,"""            self.unique_predicates.add(parse_quote! {
                #ty: ::core::marker::Sized
            })?;

            return""","            return"))
m("m14_self","C14,C11,C15",(IN,"        let derive_input = derive_input.without_self_type();\n",""))
m("m14_self_colon2","C14,C11,C15,C20",(SE,"colon2_token: None,","colon2_token: Some(Default::default()),"))
M[-1]=("r14_self_colon2",None,M[-1][2])
# --- C15
m("m15_result_bare","C15",(DB,"::core::result::Result::Ok(#expr)","Result::Ok(#expr)"))
m("m15_ok_bare","C15",(DE,"::core::result::Result::Ok(match self {","Ok(match self {"))
m("m15_fnmut","C15",(DE,"#fn_type_ident: ::core::ops::FnMut(#src_type_ident) -> #dst_type_ident","#fn_type_ident: FnMut(#src_type_ident) -> #dst_type_ident"))
m("m15_core_rel","C15",(MA,"#ty: ::core::marker::Sized","#ty: core::marker::Sized"))
m("m15_std_path","C15,C08",(DB,"::core::result::Result::Ok(#expr)","::std::result::Result::Ok(#expr)"))
m("m15_raw_reserved","C15",(IC,"self.0.idents.insert(ident.unraw().to_string());","self.0.idents.insert(ident.to_string());"))
m("m15_macro_tokens","C15",(IC,"        self.visit_tokens(mac.tokens.clone());","        let _ = &mac.tokens;"))
m("m15_no_group","C15",(IC,"TokenTree::Group(group) => self.visit_tokens(group.stream()),","TokenTree::Group(..) => (),"))
m("m15_crate_path","C15",(IN,"""        if let Some(crate_path) = &opts.crate_path {
            ident_collector.visit_path(crate_path);
        }
""",""))
m("m15_reserve_no_insert","C15",(IC,"        self.idents.insert(letter);\n        ident","        ident"))
m("m15_method_call","C15",(MA,"bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))","bind_expr(quote!(#mappable.#fn_ident(#closure))))"))
m("m15_visit_generics_only","C15",(IN,"ident_collector.visit_derive_input(&derive_input);","ident_collector.visit_ident(&derive_input.ident);\n        ident_collector.visit_generics(&derive_input.generics);"))
m("m15_visit_data_only","C15",(IN,"ident_collector.visit_derive_input(&derive_input);","ident_collector.visit_data(&derive_input.data);\n        ident_collector.visit_generics(&derive_input.generics);"))
# --- C16
m("m16_marker","C16",(MA,"                            #crate_path::#MARKER_TYPE_IDENT::<#marker_idx>\n","                            ::funcmap::#MARKER_TYPE_IDENT::<#marker_idx>\n"))
m("m16_assert","C16",(DE,"                #crate_path::#trait_ident\n                for","                ::funcmap::#trait_ident\n                for"))
m("m16_pred","C16",(MA,"#src_type: #crate_path::#trait_ident<","#src_type: ::funcmap::#trait_ident<"))
m("m16_rel","C16,C15",(IN,"leading_colon: Some(<Token![::]>::default()),","leading_colon: None,"))
m("m16_colon_lost","C16",(IN,"            crate_path: opts.crate_path.unwrap_or_else(|| {","            crate_path: opts.crate_path.map(|path| Path { leading_colon: None, ..path }).unwrap_or_else(|| {"))
m("m16_first_seg","C16",(IN,"            crate_path: opts.crate_path.unwrap_or_else(|| {","            crate_path: opts.crate_path.filter(|path| path.segments.len() < 3).unwrap_or_else(|| {"))
# --- C17
m("m17_generic_only","C17",(DE,"    let assert_not_drop = {","    let assert_not_drop = if all_params.len() > 3 { quote!() } else {"))
m("m17_wrong_marker","C17",(DB,"            Self::Fallible => NO_DROP_MARKER_FALLIBLE_TRAIT_IDENT,\n        }\n    }\n\n    /// Returns the identifier of the required","            Self::Fallible => NO_DROP_MARKER_TRAIT_IDENT,\n        }\n    }\n\n    /// Returns the identifier of the required"))
m("m17_inner","C17",("funcmap/src/lib.rs","impl<T> TryFuncMap_cannot_be_derived_for_types_implementing_Drop for T where T: Drop + ?Sized {}",""))
m("m17_no_where","C17,C14",(DE,"                for #ident<#(#args),*>\n                #where_clause\n            {}","                for #ident<#(#args),*>\n            {}"))
# --- C18
m("m18_assoc","C18",(MA,"""                if prefix_type
                    .dependency_on_type(&self.mapping.type_param.ident)
                    .is_some()
                {""","                if false {"))
m("m18_enum_union","C18",(IN,"opts::assert_absent(&variant.attrs, \"variants\").add_err_to(&mut result_builder);","if !variant.fields.is_empty() {\n            opts::assert_absent(&variant.attrs, \"variants\").add_err_to(&mut result_builder);\n        }"))
m("m18_dup_params","C18",(OP,"                                    if params.contains(&value) {","                                    if params.contains(&value) && params.len() > 1 {"))
m("m18_dup_crate","C18",(OP,"Arg::Crate(ArgCrate(value)) if crate_path.is_none() => {","Arg::Crate(ArgCrate(value)) if crate_path.is_none() || crate_path.as_ref() == Some(&value) => {"))
m("m18_empty_args","C18",(OP,"        if args.is_empty() {","        if args.is_empty() && input.is_empty() && false {"))
m("m18_span","C18",(MA,"            Type::Reference(..) => Err(syn::Error::new_spanned(\n                ty,","            Type::Reference(..) => Err(syn::Error::new(\n                Span::call_site(),"))
m("m18_trailing","C18",(OP,"        let params = content.call(Punctuated::<Param, Token![,]>::parse_terminated)?;\n","        let params = content.call(Punctuated::<Param, Token![,]>::parse_separated_nonempty)?;\n        content.parse::<TokenStream>()?;\n"))
m("m18_union_attr","C18,C19",(IN,"opts::assert_absent(&field.attrs, \"fields\")?;","if field.ident.is_some() {\n            opts::assert_absent(&field.attrs, \"fields\")?;\n        }"))
m("m18_macro_type","C18",(MA,"        if let Type::Macro(..) = ty {","        if matches!(ty, Type::Macro(..)) && false {"))
m("m18_lifetime_params","C18",(IN,"                (Some(GenericParam::Lifetime(..)), param) => {\n                    result_builder.add_err(syn::Error::new_spanned(\n                        param,\n                        format!(\"cannot implement {TRAIT_IDENT} over lifetime parameter\"),\n                    ));\n                }","                (Some(GenericParam::Lifetime(..)), _) => (),"))
m("m18_gen_attr","C18",(IN,"GenericParam::Const(const_param) => &const_param.attrs,","GenericParam::Const(..) => continue,"))
# --- C19
m("m19_ok","C19",(DE,"                        for predicate in mapped.predicates.into_iter() {\n                            unique_predicates\n                                .add(predicate)\n                                .add_err_to(&mut result_builder);","                        for predicate in mapped.predicates.into_iter() {\n                            let _ = unique_predicates.add(predicate);"))
m("m19_filter_ok","C19",(RE,".filter_map(|result| result.add_err_to(&mut builder))",".take_while(|result| result.is_ok()).filter_map(|result| result.add_err_to(&mut builder))"))
m("m19_overwrite","C19",(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","        self.0 = Some(err.into());\n        self"))
m("m19_combine_first","C19",(RE,"                error.combine(err);\n                error\n","                drop(err);\n                error\n"))
m("m19_with_error","C19",(RE,"            Err(err) => Err(builder.err_combined_with(err)),","            Err(err) => Err(err.into()),"))
m("m19_with_error_ok","C19",(RE,"            Ok(value) => builder.err_or(value),\n            Err(err) =>","            Ok(value) => Ok(value),\n            Err(err) =>"))
m("m19_absent_one","C19",(OP,"        .filter(|attr| is_helper_attr(attr))\n        .map(","        .filter(|attr| is_helper_attr(attr))\n        .take(1)\n        .map("))
m("m19_early","C19",(IN,"opts::assert_absent(&variant.attrs, \"variants\").add_err_to(&mut result_builder);","opts::assert_absent(&variant.attrs, \"variants\")?;"))
m("m19_params_early","C19",(IN,"            opts::assert_absent(attrs, \"generic parameters\").add_err_to(&mut result_builder);","            opts::assert_absent(attrs, \"generic parameters\")?;"))
m("m19_field_early","C19",(DE,"                    if let Some(mapped) = mapping\n                        .map(ident, &field.ty)\n                        .add_err_to(&mut result_builder)\n                    {","                    {\n                        let mapped = mapping.map(ident, &field.ty)?;"))
m("m19_impls_some","C19",(DE,"        .collect_with_errors()?;\n\n    Ok","        .filter_map(Result::ok).collect();\n\n    Ok"))
m("m19_with_err_q","C19",(RE,"""        match self {
            Ok(value) => builder.err_or(value),
            Err(err) => Err(builder.err_combined_with(err)),
        }""","""        let value = self.map_err(|err| builder.err_combined_with(err))?;
        Ok(value)"""))
m("m19_opts_break","C19",(OP,"                Err(err) => {\n                    result_builder.add_err(err);\n                }\n            }\n        }\n\n        result","                Err(err) => {\n                    result_builder.add_err(err);\n                    break;\n                }\n            }\n        }\n\n        result"))
m("m19_last","C19",(RE,"        for err in iter {\n            self.add_err(err);\n        }","        if let Some(err) = iter.into_iter().last() {\n            self.add_err(err);\n        }"))
m("m19_builder_vec_first","C19",(RE,"pub(crate) struct Builder(Option<Error>);","pub(crate) struct Builder(Vec<Error>);"),(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","        self.0.push(err.into());\n        self"),(RE,"""        match self.0 {
            Some(err) => Err(err),
            None => Ok(value),
        }""","""        match self.0.into_iter().next() {
            Some(err) => Err(err),
            None => Ok(value),
        }"""),(RE,re.compile(r"    fn err_combined_with<E>.*?\n    \}\n",re.S),"""    fn err_combined_with<E>(&mut self, err: E) -> Error
    where
        E: Into<Error>,
    {
        self.0.push(err.into());
        self.0.remove(0)
    }
"""))
# --- C20
m("m20_unreachable","C20",(MA,"            _ => Err(syn::Error::new_spanned(ty, \"mapping over this type is not supported\").into()),","            _ => unreachable!(),"))
m("m20_trailing","C20",(MA,"""                        Some(..) => {
                            return Err(syn::Error::new_spanned(
                                ty,
                                "mapping over type with trailing :: is not supported",
                            )
                            .into());
                        }
                        None => {
                            return Err(syn::Error::new_spanned(
                                ty,
                                "mapping over empty type is not supported",
                            )
                            .into());
                        }""","                        _ => unreachable!(),"))
m("m20_is_ident","C20",(SE,"Type::Path(TypePath { qself: None, path }) if path.is_ident(\"Self\") => {\n                self.self_type(path.segments[0]","Type::Path(TypePath { path, .. }) if path.segments[0].ident == \"Self\" && path.segments.len() == 1 => {\n                self.self_type(path.segments[0]"))
m("m20_field_new","C20",(DE,"""                        let ident = format_ident!(
                            "field_{}",
                            field_ident.clone(),
                            span = Span::mixed_site()
                        );""","                        let ident = Ident::new(&format!(\"field_{field_ident}\"), Span::mixed_site());"))
m("m20_range","C20",(IC,"(0..=usize::MAX)","(0..=1usize)"))
m("m20_range2","C20",(IC,"(0..=usize::MAX)","(0..=255u8)"))
m("m20_letters","C20",(IC,"(desired_letter..='Z').chain('A'..=desired_letter)","(desired_letter..='[').chain('A'..=desired_letter)"))
m("m20_lit","C20",(OP,"            .map_err(|_| syn::Error::new_spanned(&lit, \"expected path\"))","            .map_err(|_| syn::Error::new_spanned(&lit, \"expected path\"))\n            .map(|arg: Self| { assert!(!arg.0.segments.is_empty()); let _ = arg.0.segments[arg.0.segments.len() - 2].ident; arg })"))
m("m20_first","C20",(OP,"    attr.path()\n        .get_ident()\n        .map_or(false, |ident| ident.unraw() == ATTR_IDENT)","    attr.path().segments.first().unwrap().ident.unraw() == ATTR_IDENT && attr.path().require_ident().unwrap() == ATTR_IDENT.as_ref()"))
m("m20_params_expect","C20",(PR,"            predicate => {\n                return Err(","            predicate => {\n                assert!(!matches!(predicate, WherePredicate::Type(..)));\n                unreachable!();\n                #[allow(unreachable_code)]\n                return Err("))
m("m20_lifetime_param","C20",(OP,"""            .parse::<Lifetime>()
            .map(Self::Lifetime)
            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
            .map_err(|_| input.error("expected name of generic parameter"))""","""            .parse::<Lifetime>()
            .map(Self::Lifetime)
            .or_else(|_| input.parse::<Ident>().map(|i| Self::TypeOrConst(Ident::new(&i.to_string(), i.span()))))
            .map_err(|_| input.error("expected name of generic parameter"))"""))
m("m20_marker","C20",(IN,"                        marker_idx,\n                        type_param","                        marker_idx: usize::from(u8::try_from(marker_idx).unwrap()),\n                        type_param"))
m("m20_parse_quote","C20",(MA,"            self.unique_predicates.add(parse_quote! {\n                #ty: ::core::marker::Sized\n            })?;","            self.unique_predicates.add(parse_quote! {\n                #mappable: ::core::marker::Sized\n            })?;"))
# --- C21
m("m21_hashset_iter","C21",(IN,"            ident_collector: ident_collector.into_reserved(),","            ident_collector: { for i in &mapped { ident_collector.visit_ident(i); } ident_collector.into_reserved() },"),)
M.pop()
m("m21_indexset","C21",(PR,"use indexmap::{IndexMap, IndexSet};","use std::collections::HashSet as IndexSet;\nuse indexmap::IndexMap;"))
m("m21_indexmap","C21",(PR,"use indexmap::{IndexMap, IndexSet};","use std::collections::HashMap as IndexMap;\nuse indexmap::IndexSet;"))
m("m21_params_set","C21",(OP,"use indexmap::IndexSet;","use std::collections::HashSet as IndexSet;"))
m("m21_counter","C21",(DE,'    let fn_var_ident = Ident::new("f", Span::mixed_site());','    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let fn_var_ident = format_ident!("f{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed), span = Span::mixed_site());'))
m("m21_env","C21",(IN,"                let path = CRATE_IDENT.into();","                let path = std::env::var(\"CARGO_PKG_NAME\").ok().and_then(|n| syn::parse_str(&n.replace('-', \"_\")).ok()).filter(|_: &Path| false).unwrap_or_else(|| CRATE_IDENT.into());"))
m("m21_span_debug","C21",(DE,'    let fn_var_ident = Ident::new("f", Span::mixed_site());','    let h = format!("{:?}", input.ident.span()).len();\n    let fn_var_ident = format_ident!("f{}", h, span = Span::mixed_site());'))
m("m21_thread_local","C21",(DE,'    let fn_var_ident = Ident::new("f", Span::mixed_site());','    std::thread_local!(static N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n    let n = N.with(|n| { n.set(n.get() + 1); n.get() });\n    let fn_var_ident = format_ident!("f{}", n, span = Span::mixed_site());'))
m("m21_ptr","C21",(DE,'    let fn_var_ident = Ident::new("f", Span::mixed_site());\n',""),(DE,"    let all_params = &input.generics.params;\n","    let all_params = &input.generics.params;\n"+'    let n = (ident as *const _ as usize) % 7;\n    let fn_var_ident = format_ident!("f{}", n, span = Span::mixed_site());\n'))
m("m21_randstate","C21",(DE,'    let fn_var_ident = Ident::new("f", Span::mixed_site());','    let n = { use std::hash::{BuildHasher, Hasher}; std::collections::hash_map::RandomState::new().build_hasher().finish() % 2 };\n    let fn_var_ident = format_ident!("f{}", n, span = Span::mixed_site());'))
# --- C22
for a in ["absolute_paths_not_starting_with_crate","bare_trait_objects","deprecated","drop_bounds","dyn_drop","non_camel_case_types","trivial_bounds","unused_qualifications","clippy::disallowed_method","clippy::disallowed_type"]:
    m("m22_"+a.replace("::","_"),"C22",(DE,f"        #[allow({a})]\n",""))
m("m22_auto","C22",(DE,"        #[automatically_derived]\n",""))
m("m22_attrs_assert","C22",(DE,"            #attrs\n            impl<#(#impl_params),*>\n                #crate_path::#trait_ident\n","            impl<#(#impl_params),*>\n                #crate_path::#trait_ident\n"))
m("m22_dup_bounds","C22,C14",(PR,"pub(crate) struct UniqueTypeBounds(IndexSet<TypeParamBound>);","pub(crate) struct UniqueTypeBounds(Vec<TypeParamBound>);"),(PR,"        self.0.insert(bound);","        self.0.push(bound);"))
m("m22_group","C22,C11",(MA,"            Type::Group(TypeGroup { elem: inner_ty, .. })\n            | Type::Paren(","            Type::Paren("),(MA,"    punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,","    punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,"))
M.pop()
m("m22_group","C11,C18",(MA,"            Type::Group(TypeGroup { elem: inner_ty, .. })\n            | Type::Paren(TypeParen { elem: inner_ty, .. }) =>","            Type::Paren(TypeParen { elem: inner_ty, .. }) =>"),(MA,"Type, TypeArray, TypeGroup, TypeParam, TypePath,","Type, TypeArray, TypeParam, TypePath,"))
# --- further C19 refactorings
VEC=[(RE,"pub(crate) struct Builder(Option<Error>);","pub(crate) struct Builder(Vec<Error>);"),(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","        self.0.push(err.into());\n        self")]
ERR="""        match self.0 {
            Some(err) => Err(err),
            None => Ok(value),
        }"""
ECW=(RE,re.compile(r"    fn err_combined_with<E>.*?\n    \}\n",re.S),"""    fn err_combined_with<E>(&mut self, err: E) -> Error
    where
        E: Into<Error>,
    {
        self.0.push(err.into());
        let errs = std::mem::take(&mut self.0);
        match errs.into_iter().reduce(|mut a, b| {
            a.combine(b);
            a
        }) {
            Some(err) => err,
            None => unreachable!(),
        }
    }
""")
WITH=(RE,"            Ok(value) => builder.err_or(value),\n            Err(err) => Err(builder.err_combined_with(err)),","            Ok(value) => builder.err_or(value),\n            Err(err) => {\n                builder.add_err(err);\n                Err(builder.0.into_iter().reduce(combined).expect(\"there is one\"))\n            }")
COMB=(RE,"pub(crate) trait IteratorExt<T> {","fn combined(mut a: Error, b: Error) -> Error {\n    a.combine(b);\n    a\n}\n\npub(crate) trait IteratorExt<T> {")
NOECW=(RE,re.compile(r"    (/// [^\n]*\n    )*fn err_combined_with<E>.*?\n    \}\n",re.S),"")
m("r19_vec_reduce",None,*VEC,(RE,ERR,"        self.0.into_iter().reduce(combined).map_or(Ok(value), Err)"),COMB,NOECW,(RE,"            Err(err) => Err(builder.err_combined_with(err)),","            Err(err) => {\n                builder.add_err(err);\n                match builder.err_or(()) {\n                    Ok(()) => unreachable!(),\n                    Err(err) => Err(err),\n                }\n            }"))
m("r19_vec_empty",None,*VEC,(RE,ERR,"        if self.0.is_empty() {\n            return Ok(value);\n        }\n        let mut errs = self.0;\n        let mut first = errs.remove(0);\n        for err in errs {\n            first.combine(err);\n        }\n        Err(first)"),NOECW,(RE,"            Err(err) => Err(builder.err_combined_with(err)),","            Err(err) => Err(combined(builder, err.into())),"),(RE,"pub(crate) trait IteratorExt<T> {","fn combined(builder: Builder, last: Error) -> Error {\n    let mut errs = builder.0.into_iter().chain([last]);\n    let first = errs.next();\n    match first {\n        None => unreachable!(),\n        Some(first) => errs.fold(first, |mut a, b| {\n            a.combine(b);\n            a\n        }),\n    }\n}\n\npub(crate) trait IteratorExt<T> {"))
m("r19_err_or_else",None,(RE,"            Ok(value) => builder.err_or(value),\n            Err(err) => Err(builder.err_combined_with(err)),\n        }","            Ok(value) => builder.err_or(value),\n            Err(err) => {\n                builder.add_err(err);\n                match builder.0 {\n                    Some(err) => Err(err),\n                    None => unreachable!(),\n                }\n            }\n        }"),NOECW,(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","        match self.0 {\n            Some(ref mut error) => error.combine(err),\n            None => self.0 = Some(err.into()),\n        }\n        self"))
m("r19_add_to_iflet",None,(RE,"""        match self {
            Ok(value) => Some(value),
            Err(err) => {
                builder.add_err(err);
                None
            }
        }""","""        match self {
            Ok(value) => return Some(value),
            Err(err) => builder.add_err(err),
        };
        None"""))
m("r19_preds_iflet",None,(DE,"""                            unique_predicates
                                .add(predicate)
                                .add_err_to(&mut result_builder);
                        }
""","""                            if let Err(err) = unique_predicates.add(predicate) {
                                result_builder.add_err(err);
                            }
                        }
"""))
m("r19_absent_iflet",None,(IN,"            opts::assert_absent(attrs, \"generic parameters\").add_err_to(&mut result_builder);","            if let Err(err) = opts::assert_absent(attrs, \"generic parameters\") {\n                result_builder.add_err(err);\n            }"))
m("r19_error_vec",None,(RE,"pub(crate) struct Error(syn::Error);","pub(crate) struct Error(Vec<syn::Error>);"),(RE,"        self.0.into_compile_error()","        self.0.iter().map(syn::Error::to_compile_error).collect()"),(RE,"        self.0.combine(other);","        self.0.extend(other);"),(RE,"        self.0.fmt(f)","        self.0.iter().try_for_each(|err| err.fmt(f))"),(RE,"        Self(err)\n","        Self(vec![err])\n"))
m("r19_error_vec2",None,(RE,"pub(crate) struct Error(syn::Error);","pub(crate) struct Error(Vec<syn::Error>);"),(RE,"        self.0.into_compile_error()","        let mut tokens = TokenStream::new();\n        for err in self.0 {\n            tokens.extend(err.into_compile_error());\n        }\n        tokens"),(RE,"        self.0.combine(other);","        self.0.extend(other);"),(RE,"        self.0.fmt(f)","        for err in &self.0 {\n            err.fmt(f)?;\n        }\n        Ok(())"),(RE,"        Self(err)\n","        Self(vec![err])\n"))
m("r19_fields_loop",None,(IN,"""            fields: variant
                .fields
                .into_iter()
                .map(TryInto::try_into)
                .collect_with_errors()
                .with_error_from(result_builder)?,
        })""","""            fields: {
                let mut fields = Vec::new();
                for field in variant.fields {
                    match Fieldish::try_from(field) {
                        Ok(field) => fields.push(field),
                        Err(err) => {
                            result_builder.add_err(err);
                        }
                    }
                }
                result_builder.err_or(fields)?
            },
        })"""))
m("r19_absent_first",None,(IN,"        opts::assert_absent(&variant.attrs, \"variants\").add_err_to(&mut result_builder);\n\n        Ok(Self {\n            variant_ident: Some(variant.ident),\n            fields: variant\n                .fields\n                .into_iter()\n                .map(TryInto::try_into)\n                .collect_with_errors()\n                .with_error_from(result_builder)?,\n        })","        let absent = opts::assert_absent(&variant.attrs, \"variants\");\n        if absent.is_err() {\n            absent.add_err_to(&mut result_builder);\n        }\n\n        let fields = variant\n            .fields\n            .into_iter()\n            .map(TryInto::try_into)\n            .collect_with_errors();\n        let fields = fields.with_error_from(result_builder);\n        fields.map(|fields| Self {\n            variant_ident: Some(variant.ident),\n            fields,\n        })"))
# --- C24
CO="funcmap/src/impls_core.rs"; AL="funcmap/src/impls_alloc.rs"; ST="funcmap/src/impls_std.rs"; FL="funcmap/src/lib.rs"
m("m24_is_some_and","C24",(OP,".map_or(false, |ident| ident.unraw() == ATTR_IDENT)",".is_some_and(|ident| ident.unraw() == ATTR_IDENT)"))
m("m24_diag","C24",(FL,"pub trait FuncMap<A, B, P = TypeParam<0>>","#[diagnostic::on_unimplemented(message = \"cannot map\")]\npub trait FuncMap<A, B, P = TypeParam<0>>"))
m("m24_tuple_collect","C24",(OP,"/// The arguments of a `#[funcmap]` helper attribute","#[allow(dead_code)]\nfn halves(v: Vec<(u8, u8)>) -> (Vec<u8>, Vec<u8>) {\n    v.into_iter().collect()\n}\n/// The arguments of a `#[funcmap]` helper attribute"))
m("m24_assoc_bound","C24",(OP,"/// The arguments of a `#[funcmap]` helper attribute","#[allow(dead_code)]\nfn halves(v: impl IntoIterator<Item: Copy>) -> usize {\n    v.into_iter().count()\n}\n/// The arguments of a `#[funcmap]` helper attribute"))
m("m24_range_pat","C24",(OP,"/// The arguments of a `#[funcmap]` helper attribute","#[allow(dead_code)]\nfn halves(v: usize) -> bool {\n    matches!(v, 0..5 | ..=9)\n}\n/// The arguments of a `#[funcmap]` helper attribute"))
m("r24_old","",(OP,"/// The arguments of a `#[funcmap]` helper attribute","#[allow(dead_code)]\nfn halves(v: Vec<(u8, u8)>) -> (Vec<u8>, usize) {\n    let Some(x) = v.first() else { return (vec![], 0) };\n    let r: Result<Vec<u8>, ()> = v.iter().map(|y| if y == x { Ok(y.0) } else { Err(()) }).collect();\n    let a: [u8; 3] = core::array::from_fn(|i| i as u8);\n    let b: Box<[u8]> = a.into_iter().collect();\n    let c = std::sync::Mutex::new(0usize);\n    *c.lock().unwrap() += 1;\n    (r.unwrap_or_default(), b.len() + c.into_inner().unwrap())\n}\n/// The arguments of a `#[funcmap]` helper attribute"))
M[-1]=("r24_old",None,M[-1][2])
m("m24_gen_is_ok_and","C24",(DB,"Self::Fallible => quote!(#expr?),","Self::Fallible => quote!(::core::result::Result::inspect_err(#expr, |_| ())?),"))
LITP="""        lit.parse()
            .map(Self)
            .map_err(|_| syn::Error::new_spanned(&lit, "expected path"))"""
m("lit_parse_iflet",None,(OP,LITP,"""        if let Ok(path) = lit.parse() {
            return Ok(Self(path));
        }

        Err(syn::Error::new_spanned(&lit, "expected path"))"""))
m("lit_parse_letelse",None,(OP,LITP,"""        let parsed = lit.parse();
        let Ok(path) = parsed else {
            return Err(syn::Error::new_spanned(&lit, "expected path"));
        };
        Ok(Self(path))"""))
PARP="""        input
            .parse::<Lifetime>()
            .map(Self::Lifetime)
            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
            .map_err(|_| input.error("expected name of generic parameter"))"""
m("param_match",None,(OP,PARP,"""        match input.parse::<Lifetime>() {
            Ok(lifetime) => Ok(Self::Lifetime(lifetime)),
            Err(_) => match input.parse::<Ident>() {
                Ok(ident) => Ok(Self::TypeOrConst(ident)),
                Err(_) => Err(input.error("expected name of generic parameter")),
            },
        }"""))
m("param_iflet",None,(OP,PARP,"""        if let Ok(lifetime) = input.parse::<Lifetime>() {
            Ok(Self::Lifetime(lifetime))
        } else if let Ok(ident) = input.parse::<Ident>() {
            Ok(Self::TypeOrConst(ident))
        } else {
            Err(input.error("expected name of generic parameter"))
        }"""))
m("m19_lit_default","C19",(OP,LITP,"""        match lit.parse() {
            Ok(path) => Ok(Self(path)),
            Err(_) => Ok(Self(syn::parse_quote!(::funcmap))),
        }"""))
# --- third batch of refactorings
SY="funcmap_derive/src/syn_ext.rs"
m("q_letter_loop",None,(IC,re.compile(r"        \(0\.\.=usize::MAX\)\n.*?\.unwrap\(\)\n",re.S),"""        let mut iteration = 0_usize;
        loop {
            for letter in (desired_letter..='Z').chain('A'..=desired_letter) {
                let candidate = match iteration {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                };
                if !self.idents.contains(&candidate) {
                    return candidate;
                }
            }
            iteration += 1;
        }
"""))
m("q_letter_helper",None,(IC,re.compile(r"                    move \|letter\| match iteration \{.*?\n                    \},\n",re.S),"                    move |letter| candidate(letter, iteration),\n"),(IC,"impl VisitingIdentCollector {","""fn candidate(letter: char, iteration: usize) -> String {
    if iteration == 0 {
        return letter.to_string();
    }
    let suffix = if iteration == 1 { String::new() } else { iteration.to_string() };
    format!("__FUNCMAP_{letter}{suffix}")
}

impl VisitingIdentCollector {"""))
m("q_letter_expect",None,(IC,"            .unwrap()\n","            .expect(\"there are infinitely many candidates\")\n"))
m("q_reserve_inline",None,(IC,"        let ident = Ident::new(&letter, span);\n        self.idents.insert(letter);\n        ident","        self.idents.insert(letter.clone());\n        Ident::new(&letter, span)"))
m("q_idents_btree",None,(IC,"use std::collections::HashSet;","use std::collections::BTreeSet;"),(IC,"idents: HashSet<String>","idents: BTreeSet<String>"))
m("q_preds_iflet",None,(PR,re.compile(r"        match predicate \{\n            WherePredicate::Type.*?\n        Ok\(\(\)\)\n",re.S),"""        match predicate {
            WherePredicate::Type(PredicateType { lifetimes, bounded_ty, bounds, .. }) => {
                let lhs = TypePredicateLhs { lifetimes, bounded_ty };
                self.for_types.entry(lhs).or_default().extend(bounds);
                Ok(())
            }
            WherePredicate::Lifetime(PredicateLifetime { lifetime, bounds, .. }) => {
                self.for_lifetimes.entry(lifetime).or_default().extend(bounds);
                Ok(())
            }
            predicate => {
                let err = syn::Error::new_spanned(predicate, "unsupported `where` predicate type");
                Err(err.into())
            }
        }
"""))
m("q_preds_or_insert",None,(PR,".or_default()\n                .extend(predicate_type.bounds)",".or_insert_with(UniqueTypeBounds::new)\n                .extend(predicate_type.bounds)"))
m("q_bounds_loop",None,(PR,"        self.0.extend(iter);\n    }\n}\n\n/// A set of unique lifetime","        for bound in iter {\n            self.add(bound);\n        }\n    }\n}\n\n/// A set of unique lifetime"))
m("q_params_iflet",None,(IN,re.compile(r"            match \(\n                derive_input\.generics\.params\.iter\(\)\.find.*?\n            \}\n        \}\n",re.S),"""            let found = derive_input.generics.params.iter().find(|p| &&param == p);
            let message = match (found, &param) {
                (Some(GenericParam::Type(type_param)), Param::TypeOrConst(..)) => {
                    mapped_type_param_idents.insert(type_param.ident.clone());
                    continue;
                }
                (Some(GenericParam::Lifetime(..)), _) => {
                    format!("cannot implement {TRAIT_IDENT} over lifetime parameter")
                }
                (Some(GenericParam::Const(..)), _) => {
                    format!("cannot implement {TRAIT_IDENT} over const generic")
                }
                _ => "unknown generic parameter".to_owned(),
            };
            result_builder.add_err(syn::Error::new_spanned(param, message));
        }
"""))
m("q_attrs_helper",None,(IN,re.compile(r"            let attrs = match param \{\n.*?            \};\n\n            opts::assert_absent\(attrs,",re.S),"            opts::assert_absent(attrs_of(param),"),(IN,"impl TryFrom<DataStruct> for Structish {","""fn attrs_of(param: &GenericParam) -> &[syn::Attribute] {
    match param {
        GenericParam::Lifetime(lifetime_param) => &lifetime_param.attrs,
        GenericParam::Type(type_param) => &type_param.attrs,
        GenericParam::Const(const_param) => &const_param.attrs,
    }
}

impl TryFrom<DataStruct> for Structish {"""))
m("q_mapped_loop",None,(IN,re.compile(r"        let mapped_type_params: Vec<_> = derive_input.*?\.collect\(\);\n",re.S),"""        let mut mapped_type_params = Vec::new();
        let mut marker_idx = 0;
        for (param_idx, param) in derive_input.generics.params.iter().enumerate() {
            if !param.is_typish() {
                continue;
            }
            if let GenericParam::Type(type_param) = param {
                if mapped_type_param_idents.is_empty()
                    || mapped_type_param_idents.contains(&type_param.ident)
                {
                    mapped_type_params.push(MappedTypeParam {
                        param_idx,
                        marker_idx,
                        type_param: type_param.clone(),
                    });
                }
            }
            marker_idx += 1;
        }
"""))
m("q_mapped_helper",None,(IN,re.compile(r"        let mapped_type_params: Vec<_> = derive_input.*?\.collect\(\);\n",re.S),"        let mapped_type_params = mapped_type_params(&derive_input.generics, &mapped_type_param_idents);\n"),(IN,"impl TryFrom<DataStruct> for Structish {","""fn mapped_type_params(generics: &Generics, selected: &HashSet<Ident>) -> Vec<MappedTypeParam> {
    let is_selected = |ident: &Ident| selected.is_empty() || selected.contains(ident);
    generics
        .params
        .iter()
        .enumerate()
        .filter(|(_, param)| param.is_typish())
        .zip(0..)
        .filter_map(|((param_idx, param), marker_idx)| match param {
            GenericParam::Type(type_param) if is_selected(&type_param.ident) => {
                Some(MappedTypeParam { param_idx, marker_idx, type_param: type_param.clone() })
            }
            _ => None,
        })
        .collect()
}

impl TryFrom<DataStruct> for Structish {"""))
m("q_empty_helper",None,(IN,re.compile(r"            result_builder\.add_err\(syn::Error::new_spanned\(\n                derive_input\n.*?\n            \)\);\n        \}\n",re.S),"""            let tokens = match derive_input.generics.to_non_empty_token_stream() {
                Some(tokens) => tokens,
                None => derive_input.ident.to_token_stream(),
            };
            result_builder.add_err(syn::Error::new_spanned(
                tokens,
                "expected at least one type parameter, found none",
            ));
        }
"""))
m("q_fields_helper",None,(IN,"            fields: data_struct\n                .fields\n                .into_iter()\n                .map(TryInto::try_into)\n                .collect_with_errors()?,","            fields: fieldish(data_struct.fields)?,"),(IN,"            fields: variant\n                .fields\n                .into_iter()\n                .map(TryInto::try_into)\n                .collect_with_errors()\n                .with_error_from","            fields: fieldish(variant.fields)\n                .with_error_from"),(IN,"impl TryFrom<DataStruct> for Structish {","""fn fieldish(fields: syn::Fields) -> Result<Vec<Fieldish>, Error> {
    fields.into_iter().map(Fieldish::try_from).collect_with_errors()
}

impl TryFrom<DataStruct> for Structish {"""))
m("q_field_and_then",None,(IN,"        opts::assert_absent(&field.attrs, \"fields\")?;\n\n        Ok(Self {\n            ident: field.ident,\n            ty: field.ty,\n        })","        let Field { attrs, ident, ty, .. } = field;\n\n        opts::assert_absent(&attrs, \"fields\").map(|()| Self { ident, ty })"))
m("q_variants_if",None,(IN,"            Data::Enum(DataEnum { variants, .. }) => variants\n                .into_iter()\n                .map(TryInto::try_into)\n                .collect_with_errors(),","            Data::Enum(data_enum) => {\n                let variants = data_enum.variants;\n                variants.into_iter().map(Structish::try_from).collect_with_errors()\n            }"))
m("q_params_insert",None,(OP,"""                                    if params.contains(&value) {
                                        result_builder.add_err(syn::Error::new_spanned(
                                            value,
                                            "duplicate parameter",
                                        ));
                                    } else {
                                        params.insert(value);
                                    }""","""                                    if let Some(value) = params.replace(value) {
                                        result_builder.add_err(syn::Error::new_spanned(
                                            value,
                                            "duplicate parameter",
                                        ));
                                    }"""))
M.pop()  # reports the span of the first occurrence
m("q_params_guard",None,(OP,"""                                    if params.contains(&value) {
                                        result_builder.add_err(syn::Error::new_spanned(
                                            value,
                                            "duplicate parameter",
                                        ));
                                    } else {
                                        params.insert(value);
                                    }""","""                                    let known = params.contains(&value);
                                    if !known {
                                        params.insert(value);
                                        continue;
                                    }
                                    let err = syn::Error::new_spanned(value, "duplicate parameter");
                                    result_builder.add_err(err);"""))
m("q_opts_flat",None,(OP,re.compile(r"        for args_result in attrs\n.*?        result_builder\.err_or\(Self",re.S),"""        let mut args = Vec::new();
        for attr in attrs.into_iter().filter(is_helper_attr) {
            // options are taken into account attribute by attribute
            match Args::try_from(attr) {
                Ok(parsed) => args.extend(parsed.into_iter().map(Ok)),
                Err(err) => args.push(Err(err)),
            }
        }
        for arg in args {
            match arg {
                Err(err) => {
                    result_builder.add_err(err);
                }
                Ok(Arg::Crate(ArgCrate(value))) if crate_path.is_none() => crate_path = Some(value),
                Ok(Arg::Crate(ArgCrate(value))) => {
                    result_builder.add_err(syn::Error::new_spanned(value, "duplicate crate path"));
                }
                Ok(Arg::Params(ArgParams(values))) => {
                    for value in values {
                        if params.contains(&value) {
                            result_builder
                                .add_err(syn::Error::new_spanned(value, "duplicate parameter"));
                        } else {
                            params.insert(value);
                        }
                    }
                }
            }
        }

        result_builder.err_or(Self"""))
m("q_opts_method",None,(OP,re.compile(r"                    for arg in args \{\n                        match arg \{.*?                \}\n\n                Err\(err\)",re.S),"""                    for arg in args {
                        add_arg(arg, &mut crate_path, &mut params, &mut result_builder);
                    }
                }

                Err(err)"""),(OP,"/// The arguments of a `#[funcmap]` helper attribute","""fn add_arg(
    arg: Arg,
    crate_path: &mut Option<Path>,
    params: &mut IndexSet<Param>,
    result_builder: &mut result::Builder,
) {
    match arg {
        Arg::Crate(ArgCrate(value)) => {
            if crate_path.is_none() {
                *crate_path = Some(value);
            } else {
                result_builder.add_err(syn::Error::new_spanned(value, "duplicate crate path"));
            }
        }
        Arg::Params(ArgParams(values)) => {
            for value in values {
                if params.contains(&value) {
                    result_builder.add_err(syn::Error::new_spanned(value, "duplicate parameter"));
                } else {
                    params.insert(value);
                }
            }
        }
    }
}

/// The arguments of a `#[funcmap]` helper attribute"""))
m("q_args_early",None,(OP,"        if args.is_empty() {\n            Err(input.error(\"expected at least one argument\"))\n        } else {\n            Ok(Self(args))\n        }","        if args.is_empty() {\n            return Err(input.error(\"expected at least one argument\"));\n        }\n\n        Ok(Self(args))"))
m("q_args_first",None,(OP,"        if args.is_empty() {\n            Err(input.error(\"expected at least one argument\"))\n        } else {\n            Ok(Self(args))\n        }","        match args.first() {\n            None => Err(input.error(\"expected at least one argument\")),\n            Some(..) => Ok(Self(args)),\n        }"))
m("q_args_match",None,(OP,"            .call(Punctuated::<_, Token![,]>::parse_terminated)?\n            .into_iter()\n            .collect();","            .call(Punctuated::<Arg, Token![,]>::parse_terminated)\n            .map(|args| args.into_iter().collect())?;"))
m("q_arg_parse",None,(OP,"            Ok(Self::Crate(input.call(ArgCrate::parse)?))","            input.parse().map(Self::Crate)"),(OP,"            Ok(Self::Params(input.call(ArgParams::parse)?))","            input.parse().map(Self::Params)"))
m("q_arg_lookahead",None,(OP,"        if input.peek(Token![crate]) {\n            Ok(Self::Crate(input.call(ArgCrate::parse)?))\n        } else if","        if input.peek(Token![crate]) {\n            return Ok(Self::Crate(input.call(ArgCrate::parse)?));\n        }\n\n        if"))
m("q_param_eq",None,(OP,re.compile(r"        match \(self, other\) \{\n            \(Self::Lifetime\(l\).*?            _ => false,\n        \}\n",re.S),"""        match self {
            Self::Lifetime(l) => matches!(other, GenericParam::Lifetime(p) if &p.lifetime == l),
            Self::TypeOrConst(l) => match other {
                GenericParam::Type(TypeParam { ident, .. })
                | GenericParam::Const(ConstParam { ident, .. }) => ident.unraw() == l.unraw(),
                GenericParam::Lifetime(..) => false,
            },
        }
"""))
m("q_absent_any",None,(OP,re.compile(r"    attrs\n        \.iter\(\)\n        \.filter\(\|attr\| is_helper_attr\(attr\)\).*?\.err_or\(\(\)\)",re.S),"""    let mut errs = attrs.iter().filter(|attr| is_helper_attr(attr)).map(|attr| {
        syn::Error::new_spanned(
            attr,
            format!("#[{ATTR_IDENT}] helper attribute is not supported for {name}"),
        )
    });
    let Some(mut err) = errs.next() else {
        return Ok(());
    };
    for other in errs {
        err.combine(other);
    }
    Err(err.into())"""))
m("q_absent_reduce",None,(OP,re.compile(r"        \.collect::<result::Builder>\(\)\n        \.err_or\(\(\)\)",re.S),"""        .reduce(|mut err, other| {
            err.combine(other);
            err
        })
        .map_or(Ok(()), |err| Err(err.into()))"""))
m("q_absent_fold",None,(OP,re.compile(r"        \.collect::<result::Builder>\(\)\n        \.err_or\(\(\)\)",re.S),"""        .fold(result::Builder::new(), |mut builder, err| {
            builder.add_err(err);
            builder
        })
        .err_or(())"""))
m("q_absent_foreach",None,(OP,"    attrs\n        .iter()\n        .filter(|attr| is_helper_attr(attr))","    let mut builder = result::Builder::new();\n    attrs\n        .iter()\n        .filter(|attr| is_helper_attr(attr))"),(OP,"        .collect::<result::Builder>()\n        .err_or(())","        .for_each(|err| {\n            builder.add_err(err);\n        });\n    builder.err_or(())"))
m("q_collect_partition",None,(RE,"""        let mut builder = Builder::new();

        let values = self
            .filter_map(|result| result.add_err_to(&mut builder))
            .collect();

        builder.err_or(values)""","""        let mut builder = Builder::new();
        let mut values = Vec::new();

        for result in self {
            match result {
                Ok(value) => values.push(value),
                Err(err) => {
                    builder.add_err(err);
                }
            }
        }

        builder.err_or(values.into_iter().collect())"""))
m("q_collect_flat",None,(RE,".filter_map(|result| result.add_err_to(&mut builder))",".flat_map(|result| result.add_err_to(&mut builder))"))
m("q_add_err_match",None,(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","        let err = match self.0.take() {\n            None => err.into(),\n            Some(mut first) => {\n                first.combine(err);\n                first\n            }\n        };\n        self.0.replace(err);\n        self"))
m("q_add_err_asmut",None,(RE,"        self.0 = Some(self.err_combined_with(err));\n        self","        match self.0.as_mut() {\n            Some(first) => first.combine(err),\n            None => self.0 = Some(err.into()),\n        }\n        self"))
m("q_err_combined_map",None,(RE,"""        match self.0.take() {
            Some(mut error) => {
                error.combine(err);
                error
            }
            None => err.into(),
        }""","""        let err = err.into();
        if let Some(mut error) = self.0.take() {
            error.combine(err);
            return error;
        }
        err"""))
m("q_builder_vec",None,(RE,"pub(crate) struct Builder(Option<Error>);","pub(crate) struct Builder {\n    err: Option<Error>,\n}"),(RE,"        self.0 = Some(self.err_combined_with(err));","        self.err = Some(self.err_combined_with(err));"),(RE,"        match self.0 {\n            Some(err) => Err(err),","        match self.err {\n            Some(err) => Err(err),"),(RE,"        match self.0.take() {","        match self.err.take() {"))
m("q_dep_bool",None,(MA,"        if ty\n            .dependency_on_type(&self.mapping.type_param.ident)\n            .is_none()\n        {\n            self.unique","        if !self.is_mapped(ty) {\n            self.unique"),(MA,"                    if arg_type\n                        .dependency_on_type(&self.mapping.type_param.ident)\n                        .is_none()\n                    {","                    if !self.is_mapped(arg_type) {"),(MA,"    fn map_closure(","    fn is_mapped(&self, ty: &Type) -> bool {\n        ty.dependency_on_type(&self.mapping.type_param.ident).is_some()\n    }\n\n    fn map_closure("))
m("q_unsupported",None,(MA,re.compile(r"            Type::BareFn\(\.\.\) => Err.*?            _ => Err\(syn::Error::new_spanned\(ty, \"mapping over this type is not supported\"\)\.into\(\)\),\n",re.S),"""            _ => {
                let kind = match ty {
                    Type::BareFn(..) => "function type",
                    Type::Ptr(..) => "pointer type",
                    Type::Reference(..) => "reference type",
                    Type::Slice(..) => "slice type",
                    Type::TraitObject(..) => "trait object type",
                    _ => "this type",
                };
                let message = format!("mapping over {kind} is not supported");
                Err(syn::Error::new_spanned(ty, message).into())
            }
"""))
m("q_err_fn",None,(MA,re.compile(r"            Type::BareFn\(\.\.\) => Err\(syn::Error::new_spanned\(\n                ty,\n                \"mapping over function type is not supported\",\n            \)\n            \.into\(\)\),",re.S),"            Type::BareFn(..) => unsupported(ty, \"function type\"),"),(MA,"impl<'ast> Mapper<'ast> {","fn unsupported(ty: &Type, what: &str) -> Result<TokenStream, Error> {\n    Err(Error::from(syn::Error::new_spanned(ty, format!(\"mapping over {what} is not supported\"))))\n}\n\nimpl<'ast> Mapper<'ast> {"))
m("q_prefix_last",None,(MA,"""                    let mut prefix = segments.clone();

                    match prefix.pop() {""","""                    let mut prefix = segments.to_owned();
                    let popped = prefix.pop();

                    match popped {"""))
m("q_path_trailing_first",None,(MA,"""                let (prefix, ident, arguments) = {
                    let mut prefix = segments.clone();
""","""                let (prefix, ident, arguments) = {
                    if !segments.is_empty() && segments.trailing_punct() {
                        return Err(syn::Error::new_spanned(
                            ty,
                            "mapping over type with trailing :: is not supported",
                        )
                        .into());
                    }

                    let mut prefix = segments.clone();
"""))
m("q_tuple_loop",None,(MA,re.compile(r"                let mapped = type_tuple\n.*?\.collect::<Result<Vec<_>, _>>\(\)\?;\n",re.S),"""                let mut mapped = Vec::with_capacity(type_tuple.elems.len());
                for (i, ty) in type_tuple.elems.iter().enumerate() {
                    let idx = Index::from(i);
                    mapped.push(self.map(quote!(#mappable.#idx), ty)?);
                }
"""))
m("q_tuple_idx",None,(MA,re.compile(r"                let mapped = type_tuple\n.*?\.collect::<Result<Vec<_>, _>>\(\)\?;\n",re.S),"""                let elems = &type_tuple.elems;
                let mut mapped = Vec::new();
                for i in 0..elems.len() {
                    let idx = Index::from(i);
                    mapped.push(self.map(quote!(#mappable.#idx), &elems[i])?);
                }
"""))
m("q_tuple_while",None,(MA,re.compile(r"                let mapped = type_tuple\n.*?\.collect::<Result<Vec<_>, _>>\(\)\?;\n",re.S),"""                let mut elems = type_tuple.elems.iter();
                let mut mapped = Vec::new();
                while let Some(ty) = elems.next() {
                    let idx = Index::from(mapped.len());
                    mapped.push(self.map(quote!(#mappable.#idx), ty)?);
                }
"""))
m("q_args_loop",None,(MA,re.compile(r"                let arg_types = args\n.*?                let mut mappable = mappable;\n\n                for \(marker_idx, arg_type\) in arg_types \{\n",re.S),"""                let mut mappable = mappable;

                for (marker_idx, arg) in args.iter().filter(|arg| arg.is_typish()).enumerate() {
                    let arg_type = match arg {
                        GenericArgument::Type(arg_type) => arg_type,
                        _ => continue,
                    };

"""))
m("q_first_seg",None,(SY,"""                match path.segments.first() {
                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                        self.dependency = Some(ident);
                    }
                    _ => visit::visit_type(self, ty),
                }""","""                let first = path.segments.first().map(|segment| &segment.ident);
                match first.filter(|ident| ident.unraw() == self.type_ident.unraw()) {
                    Some(ident) => self.dependency = Some(ident),
                    None => visit::visit_type(self, ty),
                }"""))
m("q_fold_iflet",None,(SY,re.compile(r"        match &mut ty \{\n            Type::Path\(TypePath \{ qself: None, path \}\) if path\.leading_colon\.is_none\(\) => \{.*?\n            _ => \(\),\n        \}\n\n        fold",re.S),"""        if let Type::Path(TypePath { qself: None, path }) = &mut ty {
            let relative = path.leading_colon.is_none();
            if let Some(segment) = path.segments.first_mut().filter(|_| relative) {
                if segment.ident.unraw() == self.type_ident.unraw() {
                    segment.ident = self.subs_ident.clone();
                }
            }
        }

        fold"""))
m("q_self_get_ident",None,(SY,"""            Type::Path(TypePath { qself: None, path }) if path.is_ident("Self") => {
                self.self_type(path.segments[0].ident.span())
            }
            ty => fold::fold_type(self, ty),""","""            Type::Path(TypePath { qself: None, ref path }) => match path.get_ident() {
                Some(ident) if ident == "Self" => self.self_type(ident.span()),
                _ => fold::fold_type(self, ty),
            },
            ty => fold::fold_type(self, ty),"""))
m("q_maybe_retain",None,(SY,re.compile(r"        self\.into_iter\(\)\n            \.filter\(\|bound\| \{.*?            \.collect\(\)\n",re.S),"""        let mut bounds = Self::new();
        for bound in self {
            if let TypeParamBound::Trait(TraitBound { modifier: TraitBoundModifier::Maybe(..), .. }) = bound {
                continue;
            }
            bounds.push(bound);
        }
        bounds
"""))
m("q_nonempty_then",None,(SY,"        match self.to_token_stream() {\n            tokens if !tokens.is_empty() => Some(tokens),\n            _ => None,\n        }","        let tokens = self.to_token_stream();\n        (!tokens.is_empty()).then(|| tokens)"))
m("q_args_shared",None,(DE,"            let dst_args = all_params.iter().enumerate().map(|(param_idx, param)| {\n                if param_idx == mapped_type_param.param_idx {\n                    GenericArgument::Type(dst_type_ident.clone().into_type())\n                } else {\n                    param.clone().into_generic_argument()\n                }\n            });","            let dst_args = {\n                let mut args: Vec<_> = all_params.iter().cloned().map(IntoGenericArgument::into_generic_argument).collect();\n                args[mapped_type_param.param_idx] = GenericArgument::Type(dst_type_ident.clone().into_type());\n                args\n            };"))
m("q_args_splice",None,(DE,"            let dst_args = all_params.iter().enumerate().map(|(param_idx, param)| {\n                if param_idx == mapped_type_param.param_idx {\n                    GenericArgument::Type(dst_type_ident.clone().into_type())\n                } else {\n                    param.clone().into_generic_argument()\n                }\n            });","            let dst_args = {\n                let mut args: Vec<_> = all_params.iter().cloned().map(IntoGenericArgument::into_generic_argument).collect();\n                if let Some(arg) = args.get_mut(mapped_type_param.param_idx) {\n                    *arg = GenericArgument::Type(dst_type_ident.clone().into_type());\n                }\n                args\n            };"))
m("q_where_iflet",None,(DE,"            for predicate in where_clause\n                .iter()\n                .flat_map(|clause| clause.predicates.iter())\n            {","            for predicate in where_clause\n                .as_ref()\n                .map(|clause| &clause.predicates)\n                .into_iter()\n                .flatten()\n            {"))
m("q_field_helper",None,(DE,re.compile(r"                    let \(member, ident\) = if let Some\(field_ident\).*?                    \};\n",re.S),"""                    let (member, suffix) = match &field.ident {
                        Some(field_ident) => (Member::from(field_ident.clone()), field_ident.unraw().to_string()),
                        None => (Member::from(field_idx), field_idx.to_string()),
                    };
                    let ident = format_ident!("field_{}", suffix, span = Span::mixed_site());
"""),(DE,"use syn::{","use syn::ext::IdentExt;\nuse syn::{"))
m("q_reserve_array",None,(DE,re.compile(r"    let src_type_ident = ident_collector\.reserve.*?let err_type_ident = [^\n]*\n",re.S),"""    let [src_type_ident, dst_type_ident, fn_type_ident, err_type_ident] = ['A', 'B', 'F', 'E']
        .map(|letter| ident_collector.reserve_uppercase_letter(letter, Span::mixed_site()));
"""))
m("q_reserve_closure",None,(DE,re.compile(r"    let src_type_ident = ident_collector\.reserve.*?let err_type_ident = [^\n]*\n",re.S),"""    let mut reserve = |letter| ident_collector.reserve_uppercase_letter(letter, Span::mixed_site());
    let src_type_ident = reserve('A');
    let dst_type_ident = reserve('B');
    let fn_type_ident = reserve('F');
    let err_type_ident = reserve('E');
"""))
# ---------------------------------------------------------------- texts of identifiers
_cl=re.compile(r"                    move \|letter\| match iteration \{.*?\n                    \},\n",re.S)
_im="impl VisitingIdentCollector {"
m("t_push",None,(IC,_cl,"                    move |letter| candidate(letter, iteration),\n"),(IC,_im,"""fn candidate(letter: char, iteration: usize) -> String {
    let mut name = String::new();
    if iteration > 0 {
        name.push_str("__FUNCMAP_");
    }
    name.push(letter);
    if iteration > 1 {
        name.push_str(&iteration.to_string());
    }
    name
}

"""+_im))
m("t_write",None,(IC,_cl,"                    move |letter| candidate(letter, iteration),\n"),(IC,_im,"""fn candidate(letter: char, iteration: usize) -> String {
    use std::fmt::Write;
    let mut name = String::from(if iteration > 0 { "__FUNCMAP_" } else { "" });
    name.push(letter);
    if iteration > 1 {
        let _ = write!(name, "{iteration}");
    }
    name
}

"""+_im))
m("t_prefix",None,(IC,_cl,"""                    move |letter| {
                        let prefix = if iteration == 0 { "" } else { "__FUNCMAP_" };
                        match iteration {
                            0 | 1 => format!("{prefix}{letter}"),
                            i => format!("{prefix}{letter}{i}"),
                        }
                    },
"""))
m("t_letters_fn",None,(IC,re.compile(r"                \(desired_letter\.\.='Z'\).*?\n                \)\n",re.S),"""                letters(desired_letter).map(move |letter| match iteration {
                    0 => String::from(letter),
                    1 => String::from("__FUNCMAP_") + &letter.to_string(),
                    i => "__FUNCMAP_".to_owned() + &format!("{letter}{i}"),
                })
"""),(IC,_im,"""fn letters(first: char) -> impl Iterator<Item = char> {
    (first..='Z').chain('A'..=first)
}

"""+_im))
m("t_bad_order","C20",(IC,_cl,"                    move |letter| candidate(letter, iteration),\n"),(IC,_im,"""fn candidate(letter: char, iteration: usize) -> String {
    let mut name = String::new();
    if iteration > 0 {
        name.push_str(&iteration.to_string());
    }
    name.push(letter);
    name
}

"""+_im))
m("t_bad_counter","C20",(IC,"                        i => format!(\"__FUNCMAP_{letter}{i}\"),","                        i => i.to_string(),"))
m("t_bad_empty","C20",(IC,"                        1 => format!(\"__FUNCMAP_{letter}\"),","                        1 => String::new(),"))
m("t_bad_char","C20",(IC,"                        1 => format!(\"__FUNCMAP_{letter}\"),","                        1 => format!(\"{letter}-\"),"))
# ---------------------------------------------------------------- sizes: wrong only beyond some number
m("w_fields_sort","C11",(DE,"                for (field_idx, field) in fields.iter().enumerate() {","                let mut ordered: Vec<_> = fields.iter().enumerate().collect();\n                if ordered.len() > 26 {\n                    ordered.sort_by_key(|(_, field)| field.ident.as_ref().map(|ident| ident.to_string()));\n                }\n                for (field_idx, field) in ordered {"))
m("w_fields_40","C11",(DE,"                        let ident = format_ident!(\"field_{}\", field_idx, span","                        let ident = format_ident!(\"field_{}\", field_idx % 40, span"))
m("w_variants_64","C11,C12",(DE,"            for Structish {\n                variant_ident,\n                fields,\n            } in &input.variants\n            {","            for (variant_idx, Structish {\n                variant_ident,\n                fields,\n            }) in input.variants.iter().enumerate()\n            {"),(DE,"                        mappings.push(quote!(#member: #tokens));","                        if variant_idx < 64 {\n                            mappings.push(quote!(#member: #tokens));\n                        } else {\n                            mappings.insert(0, quote!(#member: #tokens));\n                        }"))
m("w_bounds_6","C14",(DE,"    for bound in bounds {\n        match bound {","    for bound in bounds.into_iter().take(6) {\n        match bound {"))
m("w_preds_10","C14",(DE,"                .flat_map(|clause| clause.predicates.iter())\n","                .flat_map(|clause| clause.predicates.iter().take(10))\n"))
m("w_args_6","C11",(MA,"                for (marker_idx, arg_type) in arg_types {","                for (marker_idx, arg_type) in arg_types.take(6) {"))
m("w_tuple_13","C11",(MA,"                let mapped = type_tuple\n                    .elems\n                    .iter()\n                    .enumerate()\n                    .map(|(i, ty)| {\n                        let idx = Index::from(i);","                let mapped = type_tuple\n                    .elems\n                    .iter()\n                    .enumerate()\n                    .map(|(i, ty)| {\n                        let idx = Index::from(i.min(12));"))
m("w_depth_6","C11",(MA,"    unique_predicates: UniquePredicates,\n}\n\nimpl<'ast> Mapper","    unique_predicates: UniquePredicates,\n\n    depth: usize,\n}\n\nimpl<'ast> Mapper"),(MA,"            unique_predicates: UniquePredicates::new(),\n","            unique_predicates: UniquePredicates::new(),\n            depth: 0,\n"),(MA,"        let mapped = self.map(closure_arg.clone().into_token_stream(), ty)?;\n","        self.depth += 1;\n        let mapped = if self.depth > 6 {\n            closure_arg.clone().into_token_stream()\n        } else {\n            self.map(closure_arg.clone().into_token_stream(), ty)?\n        };\n        self.depth -= 1;\n"))
m("w_opts_4","C13,C18",(OP,"            .filter(is_helper_attr)\n            .map(TryInto","            .filter(is_helper_attr)\n            .take(4)\n            .map(TryInto"))
m("w_group_3","C15",(IC,"    fn visit_tokens(&mut self, tokens: TokenStream) {","    fn visit_tokens(&mut self, tokens: TokenStream) {\n        self.visit_nested(tokens, 0);\n    }\n\n    fn visit_nested(&mut self, tokens: TokenStream, depth: usize) {"),(IC,"                TokenTree::Group(group) => self.visit_tokens(group.stream()),","                TokenTree::Group(group) if depth < 3 => self.visit_nested(group.stream(), depth + 1),\n                TokenTree::Group(..) => (),"))
m("w_dep_depth","C18,C11",(MA,"        if ty\n            .dependency_on_type(&self.mapping.type_param.ident)\n            .is_none()\n        {\n            self.unique","        if ty\n            .dependency_on_type(&self.mapping.type_param.ident)\n            .is_none()\n            || ty.to_token_stream().to_string().len() > 120\n        {\n            self.unique"))
# ---------------------------------------------------------------- termination
m("x_range_min","C25",(IC,"match iteration {","match iteration.min(2) {"))
m("x_mod","C25",(IC,"                        i => format!(\"__FUNCMAP_{letter}{i}\"),","                        i => format!(\"__FUNCMAP_{letter}{}\", i % 10),"))
m("x_byte","C25",(IC,"                        i => format!(\"__FUNCMAP_{letter}{i}\"),","                        i => format!(\"__FUNCMAP_{letter}{}\", i as u8),"))
m("x_stuck","C25",(IC,"                        i => format!(\"__FUNCMAP_{letter}{i}\"),","                        2 => format!(\"__FUNCMAP_{letter}{iteration}\"),\n                        _ => format!(\"__FUNCMAP_{letter}_\"),"))
m("x_short","C25",(IC,".find(|letter| !self.idents.contains(letter))",".find(|letter| !self.idents.contains(letter) && letter.len() < 13)"))
m("x_alpha","C15,C20,C25",(IC,".find(|letter| !self.idents.contains(letter))",".find(|letter| !(self.idents.contains(letter) || letter.ends_with(char::is_numeric)))"))
m("x_loop","C25",(IC,re.compile(r"        \(0\.\.=usize::MAX\).*?\.unwrap\(\)\n",re.S),"""        let mut letter = desired_letter;
        let mut name = letter.to_string();
        while self.idents.contains(&name) {
            letter = if letter == 'Z' { 'A' } else { char::from(letter as u8 + 1) };
            name = format!("__FUNCMAP_{letter}");
        }
        name
"""))
m("x_filter_last","C25",(IC,"            .find(|letter| !self.idents.contains(letter))\n            .unwrap()","            .filter(|letter| !self.idents.contains(letter))\n            .last()\n            .unwrap()"))
m("x_tokens","C25",(IC,"TokenTree::Group(group) => self.visit_tokens(group.stream()),","TokenTree::Group(group) => match group.delimiter() {\n                    proc_macro2::Delimiter::None => self.visit_tokens(TokenTree::Group(group).into()),\n                    _ => self.visit_tokens(group.stream()),\n                },"))
m("x_worklist","C25",(IC,re.compile(r"        for token in tokens \{.*?\n        \}\n    \}\n\}\n\nimpl Visit",re.S),"""        let mut todo: Vec<TokenTree> = tokens.into_iter().collect();
        while let Some(token) = todo.pop() {
            match token {
                TokenTree::Group(group) if group.stream().is_empty() => todo.push(TokenTree::Group(group)),
                TokenTree::Group(group) => todo.extend(group.stream()),
                TokenTree::Ident(ident) => self.visit_ident(&ident),
                TokenTree::Punct(..) | TokenTree::Literal(..) => (),
            }
        }
    }
}

impl Visit"""))
m("x_dep_group","C25",(SE,"            _ => visit::visit_type(self, ty),\n        }\n    }\n}","            Type::Group(..) => self.visit_type(ty),\n            _ => visit::visit_type(self, ty),\n        }\n    }\n}"))
m("x_map_group","C25",(MA,"            | Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),","            | Type::Paren(TypeParen { elem: inner_ty, .. }) => match &**inner_ty {\n                Type::Paren(..) => self.map(mappable, ty),\n                _ => self.map(mappable, inner_ty),\n            },"))
m("x_map_strip","C25",(MA,"        if let Type::Macro(..) = ty {","        let mut inner = ty;\n        while let Type::Paren(TypeParen { elem, .. }) = inner {\n            if let Type::Tuple(..) = **elem {\n                break;\n            }\n            if let Type::Paren(..) = **elem {\n                continue;\n            }\n            inner = elem;\n        }\n        let ty = inner;\n\n        if let Type::Macro(..) = ty {"))
m("x_self","C25",(SE,"                self.self_type(path.segments[0].ident.span())\n            }","                let span = path.segments[0].ident.span();\n                self.fold_type(Type::Path(TypePath { qself: None, path: Ident::new(\"Self\", span).into() }))\n            }"))
m("x_subs","C25",(SE,"                        *ident = self.subs_ident.clone();\n                    }\n                    _ => (),","                        *ident = self.subs_ident.clone();\n                        if path.segments.len() > 1 {\n                            return self.fold_type(ty);\n                        }\n                    }\n                    _ => (),"))
m("x_cycle","C25",(DE,"                for (field_idx, field) in fields.iter().enumerate() {","                for (field_idx, field) in fields.iter().cycle().enumerate() {"))
m("x_preds_pop","C25",(DE,"    for bound in bounds {\n        match bound {","    let mut bounds: Vec<_> = bounds.into_iter().collect();\n    bounds.reverse();\n    while let Some(bound) = bounds.pop() {\n        if let (TypeParamBound::Verbatim(..), false) = (bound, bounds.is_empty()) {\n            bounds.push(bound);\n            continue;\n        }\n        match bound {"))
m("x_peek","C25",(DE,"    for bound in bounds {\n        match bound {","    let mut bounds = bounds.into_iter().peekable();\n    while let Some(&bound) = bounds.peek() {\n        match bound {"),(DE,"                    bound,\n                    \"unsupported type parameter bound\",\n                ));\n            }\n        };\n","                    bound,\n                    \"unsupported type parameter bound\",\n                ));\n                continue;\n            }\n        };\n        bounds.next();\n"))
# the same in other words
m("y_worklist",None,(IC,re.compile(r"        for token in tokens \{.*?\n        \}\n    \}\n\}\n\nimpl Visit",re.S),"""        let mut todo: Vec<TokenTree> = tokens.into_iter().collect();
        while let Some(token) = todo.pop() {
            match token {
                TokenTree::Group(group) => todo.extend(group.stream()),
                TokenTree::Ident(ident) => self.visit_ident(&ident),
                TokenTree::Punct(..) | TokenTree::Literal(..) => (),
            }
        }
    }
}

impl Visit"""))
m("y_worklist_streams",None,(IC,re.compile(r"        for token in tokens \{.*?\n        \}\n    \}\n\}\n\nimpl Visit",re.S),"""        let mut todo = vec![tokens];
        while let Some(tokens) = todo.pop() {
            for token in tokens {
                match token {
                    TokenTree::Group(group) => todo.push(group.stream()),
                    TokenTree::Ident(ident) => self.visit_ident(&ident),
                    TokenTree::Punct(..) | TokenTree::Literal(..) => (),
                }
            }
        }
    }
}

impl Visit"""))
m("y_tokens_each",None,(IC,re.compile(r"        for token in tokens \{.*?\n        \}\n    \}\n\}\n\nimpl Visit",re.S),"""        tokens.into_iter().for_each(|token| self.visit_token(token));
    }

    fn visit_token(&mut self, token: TokenTree) {
        match token {
            TokenTree::Group(group) => self.visit_tokens(group.stream()),
            TokenTree::Ident(ident) => self.visit_ident(&ident),
            TokenTree::Punct(..) | TokenTree::Literal(..) => (),
        }
    }
}

impl Visit"""))
m("y_strip",None,(MA,"        if let Type::Macro(..) = ty {","        let mut ty = ty;\n        while let Type::Paren(TypeParen { elem, .. }) | Type::Group(TypeGroup { elem, .. }) = ty {\n            ty = elem;\n        }\n\n        if let Type::Macro(..) = ty {"))
m("y_strip_fn",None,(MA,"            | Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),","            | Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, stripped(inner_ty)),"),(MA,"/// Helper used for collecting predicates while mapping","fn stripped(ty: &Type) -> &Type {\n    match ty {\n        Type::Paren(TypeParen { elem, .. }) => stripped(elem),\n        ty => ty,\n    }\n}\n\n/// Helper used for collecting predicates while mapping"))
m("y_tuple_loop",None,(MA,re.compile(r"                let mapped = type_tuple\n.*?\?;\n",re.S),"""                let mut mapped = Vec::new();
                for i in 0..type_tuple.elems.len() {
                    let idx = Index::from(i);
                    let mappable = quote!(#mappable.#idx);
                    mapped.push(self.map(mappable, &type_tuple.elems[i])?);
                }
"""))
m("y_args_collect",None,(MA,"                        GenericArgument::Type(ty) => Some((marker_idx, ty)),\n                        _ => None,\n                    });","                        GenericArgument::Type(ty) => Some((marker_idx, ty.clone())),\n                        _ => None,\n                    })\n                    .collect::<Vec<_>>();"),(MA,"for (marker_idx, arg_type) in arg_types {","for (marker_idx, arg_type) in &arg_types {\n                    let marker_idx = *marker_idx;"))
m("y_array_split",None,(MA,"""            Type::Array(TypeArray { elem: inner_ty, .. }) => {
                let closure = self.map_closure(inner_ty)?;
                Ok(self
                    .mapping
                    .derivable
                    .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))
            }
""","            Type::Array(array) => self.map_array(mappable, array),\n"),(MA,"    fn map_closure(&mut self","""    fn map_array(&mut self, mappable: TokenStream, array: &TypeArray) -> Result<TokenStream, Error> {
        let closure = self.map_closure(array.elem.as_ref())?;
        let crate_path = self.mapping.crate_path;
        let trait_ident = self.mapping.derivable.trait_ident();
        let fn_ident = self.mapping.derivable.fn_ident();
        Ok(self
            .mapping
            .derivable
            .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))
    }

    fn map_closure(&mut self"""))
m("y_fold_post",None,(SE,re.compile(r"        match &mut ty \{\n            Type::Path\(TypePath \{ qself: None, path \}\).*?        fold::fold_type\(self, ty\)\n",re.S),"""        ty = fold::fold_type(self, ty);
        if let Type::Path(TypePath { qself: None, path }) = &mut ty {
            if path.leading_colon.is_none() {
                if let Some(segment) = path.segments.first_mut() {
                    if segment.ident.unraw() == self.type_ident.unraw() {
                        segment.ident = self.subs_ident.clone();
                    }
                }
            }
        }
        ty
"""))
m("y_letter_while",None,(IC,re.compile(r"        \(0\.\.=usize::MAX\).*?\.unwrap\(\)\n",re.S),"""        let mut iteration = 0_usize;
        loop {
            for letter in (desired_letter..='Z').chain('A'..=desired_letter) {
                let name = match iteration {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                };
                if !self.idents.contains(&name) {
                    return name;
                }
            }
            iteration += 1;
        }
"""))
m("y_letter_filter",None,(IC,".find(|letter| !self.idents.contains(letter))\n",".filter(|letter| !self.idents.contains(letter))\n            .next()\n"))
m("y_letter_skip",None,(IC,".find(|letter| !self.idents.contains(letter))\n",".skip_while(|letter| self.idents.contains(letter))\n            .next()\n"))
m("y_letter_is_free",None,(IC,".find(|letter| !self.idents.contains(letter))\n",".find(|letter| self.is_free(letter))\n"),(IC,"    fn find_uppercase_letter(","    fn is_free(&self, name: &str) -> bool {\n        !self.idents.contains(name)\n    }\n\n    fn find_uppercase_letter("))
m("y_letter_insert",None,(IC,"        let letter = self.find_uppercase_letter(desired_letter);\n        let ident = Ident::new(&letter, span);\n        self.idents.insert(letter);\n        ident","        let letter = self.find_uppercase_letter(desired_letter);\n        Ident::new(&letter, span)"),(IC,"    fn find_uppercase_letter(&self,","    fn find_uppercase_letter(&mut self,"),(IC,".find(|letter| !self.idents.contains(letter))",".find(|letter| self.idents.insert(letter.clone()))"))
m("y_bounds_while",None,(DE,"    for bound in bounds {\n        match bound {","    let mut bounds = bounds.into_iter();\n    while let Some(bound) = bounds.next() {\n        match bound {"))
m("y_fold_item",None,(SE,"        match ty {\n            Type::Path(TypePath { qself: None, path }) if path.is_ident(\"Self\") => {\n                self.self_type(path.segments[0].ident.span())\n            }\n            ty => fold::fold_type(self, ty),\n        }","        if let Type::Path(TypePath { qself: None, path }) = &ty {\n            if path.is_ident(\"Self\") {\n                return self.self_type(path.segments[0].ident.span());\n            }\n        }\n        fold::fold_type(self, ty)"))
m("y_successors",None,(MA,"        if let Type::Macro(..) = ty {","        let ty = std::iter::successors(Some(ty), |ty| match ty {\n            Type::Paren(TypeParen { elem, .. }) => Some(elem),\n            _ => None,\n        })\n        .last()\n        .unwrap_or(ty);\n\n        if let Type::Macro(..) = ty {"))
m("x_successors","C25",(MA,"        if let Type::Macro(..) = ty {","        let ty = std::iter::successors(Some(ty), |&ty| match ty {\n            Type::Paren(TypeParen { elem, .. }) if !matches!(**elem, Type::Paren(..)) => Some(elem),\n            Type::Paren(..) => Some(ty),\n            _ => None,\n        })\n        .last()\n        .unwrap_or(ty);\n\n        if let Type::Macro(..) = ty {"))
m("y_letter_zip",None,(DE,"                for (field_idx, field) in fields.iter().enumerate() {","                for (field_idx, field) in (0_usize..).zip(fields.iter()) {"))
m("x_letter_zip","C25",(DE,"                for (field_idx, field) in fields.iter().enumerate() {","                for (field_idx, field) in (0_usize..).zip(fields.iter().cycle()) {"))
m("y_letter_map",None,(IC,"            .find(|letter| !self.idents.contains(letter))\n            .unwrap()","            .find_map(|letter| (!self.idents.contains(&letter)).then_some(letter))\n            .unwrap()"))
m("y_letter_map2",None,(IC,"            .find(|letter| !self.idents.contains(letter))\n            .unwrap()","            .find_map(|letter| if self.idents.contains(&letter) { None } else { Some(letter) })\n            .unwrap()"))
m("y_letter_iter_any",None,(IC,".find(|letter| !self.idents.contains(letter))\n",".find(|letter| !self.idents.iter().any(|ident| ident == letter))\n"))
m("y_letter_rec",None,(IC,re.compile(r"        \(0\.\.=usize::MAX\).*?\.unwrap\(\)\n",re.S),"""        let mut suffix = 0_usize;
        loop {
            let free = (desired_letter..='Z')
                .chain('A'..=desired_letter)
                .map(|letter| match suffix {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                })
                .find(|name| !self.idents.contains(name));
            if let Some(name) = free {
                return name;
            }
            suffix += 1;
        }
"""))
m("y_letter_rec_checked",None,(IC,re.compile(r"        \(0\.\.=usize::MAX\).*?\.unwrap\(\)\n",re.S),"""        let mut suffix = 0_usize;
        loop {
            let free = (desired_letter..='Z')
                .chain('A'..=desired_letter)
                .map(|letter| match suffix {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                })
                .find(|name| !self.idents.contains(name));
            match free {
                Some(name) => return name,
                None => suffix = suffix.checked_add(1).unwrap(),
            }
        }
"""))
m("y_letter_filter_opt",None,(IC,"            .find(|letter| !self.idents.contains(letter))\n            .unwrap()","            .find_map(|letter| Some(letter).filter(|letter| !self.idents.contains(letter)))\n            .unwrap()"))
m("x_letter_map_wrong","C25",(IC,"            .find(|letter| !self.idents.contains(letter))\n            .unwrap()","            .find_map(|letter| self.idents.contains(&letter).then_some(letter))\n            .unwrap()"))
m("x_letter_rec","C25",(IC,re.compile(r"        \(0\.\.=usize::MAX\).*?\.unwrap\(\)\n",re.S),"""        let mut suffix = 0_usize;
        loop {
            let free = (desired_letter..='Z')
                .chain('A'..=desired_letter)
                .map(|letter| match suffix {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                })
                .find(|name| !self.idents.contains(name));
            if let Some(name) = free {
                return name;
            }
            if suffix < 9 {
                suffix += 1;
            }
        }
"""))
m("x_visit_twice","C25",(SE,"            ty => fold::fold_type(self, ty),\n        }\n    }\n\n    fn fold_item","            ty => {\n                let folded = fold::fold_type(self, ty);\n                match &folded {\n                    Type::Path(TypePath { qself: Some(..), .. }) => self.fold_type(folded),\n                    _ => folded,\n                }\n            }\n        }\n    }\n\n    fn fold_item"))
# --- z: fresh batch
m("z_group_opaque","C11",(SE,"            _ => visit::visit_type(self, ty),\n        }\n    }\n}","            Type::Group(..) => (),\n            _ => visit::visit_type(self, ty),\n        }\n    }\n}"))
m("z_field_plain_ident","C15",(DE,"""                        let ident = format_ident!(
                            "field_{}",
                            field_ident.clone(),
                            span = Span::mixed_site()
                        );
""","""                        let ident = format_ident!(
                            "{}",
                            field_ident.clone(),
                            span = Span::mixed_site()
                        );
"""))
m("z_value_call_site",None,(MA,'Ident::new("value", Span::mixed_site())','Ident::new("value", Span::call_site())'))
m("z_f_call_site",None,(DE,'Ident::new("f", Span::mixed_site())','Ident::new("f", Span::call_site())'))
m("z_field_call_site",None,(DE,'format_ident!("field_{}", field_idx, span = Span::mixed_site())','format_ident!("field_{}", field_idx)'))
m("z_crate_path_single","C15,C16",(IN,"            ident_collector.visit_path(crate_path);","            if let Some(ident) = crate_path.get_ident() {\n                ident_collector.visit_ident(ident);\n            }"))
m("z_crate_path_last","C15,C16",(IN,"            ident_collector.visit_path(crate_path);","            if let Some(segment) = crate_path.segments.last() {\n                ident_collector.visit_path_segment(segment);\n            }"))
m("z_qself_pos0",None,(MA,"if let Some(QSelf { ty: inner_ty, .. }) = &qself {","if let Some(QSelf { ty: inner_ty, position: 0, .. }) = &qself {"))
m("z_qself_bare",None,(MA,"if let Some(QSelf { ty: inner_ty, .. }) = &qself {","if let Some(QSelf { ty: inner_ty, position: 1.., .. }) = &qself {"))
for _a in ("absolute_paths_not_starting_with_crate","bare_trait_objects","deprecated","drop_bounds","dyn_drop","non_camel_case_types","trivial_bounds","unused_qualifications"):
    m("z_allow_"+_a,"C22",(DE,"        #[allow(%s)]\n"%_a,""))
m("z_name_slice","C20",(DE,'                    let pattern = quote!(#member: #ident);','                    debug_assert!(!field.ident.as_ref().map_or(false, |name| name.to_string()[..1].is_empty()));\n                    let pattern = quote!(#member: #ident);'))
m("z_param_case","C13",(OP,"=> l.unraw() == r.unraw(),","=> l.unraw().to_string().eq_ignore_ascii_case(&r.unraw().to_string()),"))
m("z_sized_path_only","C14",(MA,"""            self.unique_predicates.add(parse_quote! {
                #ty: ::core::marker::Sized
            })?;
""","""            if matches!(ty, Type::Path(..)) {
                self.unique_predicates.add(parse_quote! {
                    #ty: ::core::marker::Sized
                })?;
            }
"""))
m("z_sized_no_args","C14",(MA,"""            self.unique_predicates.add(parse_quote! {
                #ty: ::core::marker::Sized
            })?;
""","""            let generic = matches!(ty, Type::Path(path) if !path.path.segments.iter().all(|segment| segment.arguments.is_none()));
            if !generic {
                self.unique_predicates.add(parse_quote! {
                    #ty: ::core::marker::Sized
                })?;
            }
"""))
m("z_lt_bounds",None,(DE,"GenericParam::Lifetime(lifetime_param.clone().without_attrs())","GenericParam::Lifetime(syn::LifetimeParam::new(lifetime_param.lifetime.clone()))"))
m("z_lt_pred_one",None,(PR,"""    fn into_bounds(self) -> Punctuated<Lifetime, Token![+]> {
        self.0.into_iter().collect()""","""    fn into_bounds(self) -> Punctuated<Lifetime, Token![+]> {
        self.0.into_iter().take(2).collect()"""))
m("z_subs_single","C14",(SE,"""                match path.segments.first_mut() {
                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                        *ident""","""                match path.segments.iter_mut().take(2).next() {
                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
                        *ident"""))
m("z_dep_raw","C11,C18",(SE,"""                match path.segments.first() {
                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {""","""                match path.segments.first() {
                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {"""))
m("z_lt_bound_drop",None,(DE,"            bound @ TypeParamBound::Lifetime(..) => unique_type_bounds.add(bound.clone()),","            bound @ TypeParamBound::Lifetime(..) if subs_idents.len() == 1 => unique_type_bounds.add(bound.clone()),\n            TypeParamBound::Lifetime(..) => (),"))
m("z_maybe_where_all","C14",(DE,"                    predicate => predicate,\n                };","                    WherePredicate::Type(predicate_type) => {\n                        WherePredicate::Type(predicate_type.without_maybe_bounds())\n                    }\n                    predicate => predicate,\n                };"))
m("z_maybe_keep","C14",(SE,"                        modifier: TraitBoundModifier::Maybe(..),\n","                        modifier: TraitBoundModifier::Maybe(..),\n                        paren_token: None,\n"))
m("z_pred_after_err","C11",(MA,"""                    .map(|(i, ty)| {
                        let idx = Index::from(i);""","""                    .map(|(i, ty)| {
                        let idx = Index::from(i % 12);"""))
m("z_dst_first","C11,C14",(MA,"let dst_type = make_type(marker_idx + 1);","let dst_type = make_type(args.len().min(marker_idx + 1));"))
M[-1]=("z_dst_first","C11,C14",((MA,"let dst_type = make_type(marker_idx + 1);","let dst_type = make_type((marker_idx + 1).min(8));"),))
m("z_marker_u8","C11",(MA,"for (marker_idx, arg_type) in arg_types {","for (marker_idx, arg_type) in arg_types.take(4) {"))
m("z_attr_ident_ns","C13",(OP,"        .get_ident()\n        .map_or(false, |ident| ident.unraw() == ATTR_IDENT)","        .segments\n        .last()\n        .map_or(false, |segment| segment.ident.unraw() == ATTR_IDENT)"))
m("z_input_attrs_only_outer","C18",(OP,"            .filter(is_helper_attr)\n","            .filter(|attr| is_helper_attr(attr) && !matches!(attr.meta, syn::Meta::Path(..)))\n"))
# --- the repaired defects, back again
m("zz_50af16f","C15",(IC,"ident.unraw().to_string()","ident.to_string()"))
m("zz_f6aa5f3","C15,C16",(IN,"            ident_collector.visit_path(crate_path);","            let _ = crate_path;"))
m("zz_851d769","C14",(IN,"let derive_input = derive_input.without_self_type();","let _ = derive_input.clone().without_self_type();"))
# effects of a debug assertion: only a build without them shows what is missing
m("dbg_params","C13,C17,C18",(OP,"                                        params.insert(value);","                                        debug_assert!(params.insert(value));"))
m("dbg_bound","C14",(PR,"        self.0.insert(bound);","        debug_assert!({ self.0.insert(bound); true });"))
m("dbg_reserve","C15",(IC,"        self.idents.insert(letter);","        debug_assert!(self.idents.insert(letter));"))
m("dbg_err","C19",(RE,"        for err in iter {\n            self.add_err(err);\n        }","        for (i, err) in iter.into_iter().enumerate() {\n            if cfg!(debug_assertions) || i < 3 {\n                self.add_err(err);\n            }\n        }"))
m("dbg_user",None,(DE,"                        mappings.push(quote!(#member: #tokens));","                        mappings.push(if cfg!(debug_assertions) { quote!(#member: #tokens) } else { quote!(#member: (#tokens)) });"))
m("dbg_unwrap","C20",(IC,"            .find(|letter| !self.idents.contains(letter))\n            .unwrap()","            .take(if cfg!(debug_assertions) { usize::MAX } else { 26 })\n            .find(|letter| !self.idents.contains(letter))\n            .unwrap()"))
m("cfg_in_quote","C13",(DE,"                    #attrs\n                    impl<#(#impl_params),*>","                    #attrs\n                    #[cfg(not(test))]\n                    impl<#(#impl_params),*>"))
# refactorings of the functions none of the above touches
m("s_derivable_names",None,(DB,"""            Self::Standard => TRAIT_IDENT,
            Self::Fallible => FALLIBLE_TRAIT_IDENT,""","""            Self::Fallible => FALLIBLE_TRAIT_IDENT,
            Self::Standard => TRAIT_IDENT,"""),(DB,"""        match self {
            Self::Standard => FN_IDENT,
            Self::Fallible => FALLIBLE_FN_IDENT,
        }""","""        if let Self::Fallible = self {
            return FALLIBLE_FN_IDENT;
        }
        FN_IDENT"""))
m("s_derivable_format",None,(DB,"            Self::Fallible => quote!(#expr?),","            Self::Fallible => {\n                let question = quote!(?);\n                quote!(#expr #question)\n            }"))
m("s_ident_spans",None,(ID,"        self.to_ident().to_tokens(tokens);","        tokens.extend(std::iter::once(proc_macro2::TokenTree::from(self.to_ident())));"),(ID,"        write!(f, \"{}\", self.0)","        f.write_str(self.0)"))
m("s_ident_parse",None,(ID,"        static_ident.to_ident().into()","        let ident = static_ident.to_ident();\n        Self::from(ident)"),(ID,"        Ident::new(self.0, Span::call_site())","        let Self(name) = self;\n        quote::format_ident!(\"{}\", name)"))
m("s_visiting_inline",None,(IC,"        VisitingIdentCollector::default()","        VisitingIdentCollector(Self::default())"),(IC,"    pub(crate) fn into_reserved(self) -> IdentCollector {\n        self.0","    pub(crate) fn into_reserved(self) -> IdentCollector {\n        let Self(collector) = self;\n        collector"))
m("s_visit_ident",None,(IC,"        self.0.idents.insert(ident.unraw().to_string());","        let name = ident.to_string();\n        let name = name.strip_prefix(\"r#\").unwrap_or(&name);\n        if !self.0.idents.contains(name) {\n            self.0.idents.insert(name.to_owned());\n        }"))
m("s_visit_macro",None,(IC,"""        visit::visit_macro(self, mac);

        // the tokens passed to a macro may end up in any place of its expansion
        self.visit_tokens(mac.tokens.clone());""","""        self.visit_path(&mac.path);
        let tokens = &mac.tokens;
        self.visit_tokens(tokens.clone());"""))
m("s_visit_tokens_stack",None,(IC,"""        for token in tokens {
            match token {
                TokenTree::Group(group) => self.visit_tokens(group.stream()),
                TokenTree::Ident(ident) => self.visit_ident(&ident),
                TokenTree::Punct(..) | TokenTree::Literal(..) => (),
            }
        }""","""        let mut stack = vec![tokens];
        while let Some(tokens) = stack.pop() {
            for token in tokens {
                if let TokenTree::Group(group) = token {
                    stack.push(group.stream());
                } else if let TokenTree::Ident(ident) = token {
                    self.visit_ident(&ident);
                }
            }
        }"""))
m("s_param_tokens",None,(OP,"""            Self::Lifetime(lifetime) => lifetime.to_tokens(tokens),
            Self::TypeOrConst(ident) => ident.to_tokens(tokens),""","""            Self::Lifetime(lifetime) => tokens.extend(quote::quote!(#lifetime)),
            Self::TypeOrConst(ident) => tokens.extend(quote::quote!(#ident)),"""))
m("s_param_eq",None,(OP,"""        match (self, other) {
            (Self::Lifetime(l), GenericParam::Lifetime(LifetimeParam { lifetime: r, .. })) => {
                l == r
            }
            (
                Self::TypeOrConst(l),
                GenericParam::Type(TypeParam { ident: r, .. })
                | GenericParam::Const(ConstParam { ident: r, .. }),
            ) => l.unraw() == r.unraw(),
            _ => false,
        }""","""        match self {
            Self::Lifetime(l) => matches!(other, GenericParam::Lifetime(r) if *l == r.lifetime),
            Self::TypeOrConst(l) => match other {
                GenericParam::Type(TypeParam { ident, .. })
                | GenericParam::Const(ConstParam { ident, .. }) => ident.unraw() == l.unraw(),
                GenericParam::Lifetime(..) => false,
            },
        }"""))
m("s_param_parse",None,(OP,"""        input
            .parse::<Lifetime>()
            .map(Self::Lifetime)
            .or_else(|_| {
                input
                    .parse::<Ident>()
                    .map(|ident| Self::TypeOrConst(ident.unraw()))
            })
            .map_err(|_| input.error("expected name of generic parameter"))""","""        if let Ok(lifetime) = input.parse::<Lifetime>() {
            return Ok(Self::Lifetime(lifetime));
        }

        match input.parse::<Ident>() {
            Ok(ident) => Ok(Self::TypeOrConst(ident.unraw())),
            Err(_) => Err(input.error("expected name of generic parameter")),
        }"""))
m("s_helper_attr",None,(OP,"""        .get_ident()
        .map_or(false, |ident| ident.unraw() == ATTR_IDENT)""","""        .get_ident()
        .map(IdentExt::unraw)
        .into_iter()
        .any(|ident| ident == ATTR_IDENT)"""))
m("s_params_nonempty",None,(OP,"""        if params.is_empty() {
            Err(content.error("expected name of generic parameter"))
        } else {
            Ok(Self(params.into_iter().collect()))
        }""","""        let params: Vec<_> = params.into_iter().collect();
        match params.len() {
            0 => Err(content.error("expected name of generic parameter")),
            _ => Ok(Self(params)),
        }"""))
m("s_preds_into_iter",None,(PR,"""            (!bounds.is_empty()).then(|| {
                WherePredicate::Lifetime(PredicateLifetime {
                    lifetime: lhs,
                    colon_token: <Token![:]>::default(),
                    bounds,
                })
            })""","""            if bounds.is_empty() {
                return None;
            }

            Some(WherePredicate::Lifetime(PredicateLifetime {
                bounds,
                colon_token: <Token![:]>::default(),
                lifetime: lhs,
            }))"""))
m("s_preds_vec",None,(PR,"        for_lifetimes.chain(for_types)","        let mut predicates: Vec<_> = for_lifetimes.collect();\n        predicates.extend(for_types);\n        predicates.into_iter()"))
m("s_bounds_loop",None,(PR,"""    pub(crate) fn into_bounds(self) -> Punctuated<TypeParamBound, Token![+]> {
        self.0.into_iter().collect()""","""    pub(crate) fn into_bounds(self) -> Punctuated<TypeParamBound, Token![+]> {
        let mut bounds = Punctuated::new();
        for bound in self.0 {
            bounds.push(bound);
        }
        bounds"""))
m("s_lifetimes_extend",None,(PR,"""        I: IntoIterator<Item = Lifetime>,
    {
        self.0.extend(iter);""","""        I: IntoIterator<Item = Lifetime>,
    {
        for lifetime in iter {
            self.0.insert(lifetime);
        }"""))
m("s_preds_match_get",None,(PR,"""                .for_lifetimes
                .entry(predicate_lifetime.lifetime)
                .or_default()
                .extend(predicate_lifetime.bounds),""","""                .for_lifetimes
                .entry(predicate_lifetime.lifetime)
                .or_insert_with(UniqueLifetimeBounds::default)
                .extend(predicate_lifetime.bounds),"""))
m("s_builder_new",None,(RE,"    pub(crate) fn new() -> Self {\n        Self::default()","    pub(crate) fn new() -> Self {\n        Self(None)"))
m("s_from_iter",None,(RE,"        let mut builder = Self::new();\n        builder.extend(iter);\n        builder","        iter.into_iter().fold(Self::new(), |mut builder, err| {\n            builder.add_err(err);\n            builder\n        })"))
m("s_dependency_loop",None,(SE,"""            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                match path.segments.first() {
                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                        self.dependency = Some(ident);
                    }
                    _ => visit::visit_type(self, ty),
                }
            }
            _ => visit::visit_type(self, ty),""","""            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                if let Some(PathSegment { ident, .. }) = path.segments.first() {
                    if ident.unraw() == self.type_ident.unraw() {
                        self.dependency = Some(ident);
                        return;
                    }
                }
                visit::visit_type(self, ty);
            }
            _ => visit::visit_type(self, ty),"""))
m("s_dependency_struct",None,(SE,"        let mut visitor = DependencyOnTypeVisitor::new(type_ident);\n        visitor.visit_type(self);\n        visitor.into_dependency()","        let mut visitor = DependencyOnTypeVisitor {\n            type_ident,\n            dependency: None,\n        };\n        Visit::visit_type(&mut visitor, self);\n        let DependencyOnTypeVisitor { dependency, .. } = visitor;\n        dependency"))
m("s_is_type",None,(SE,"""        match self {
            // a type that was passed through a declarative macro is wrapped in a `None`-delimited group
            Type::Group(TypeGroup { elem, .. }) => elem.is_type(type_ident),
            Type::Path(TypePath { qself: None, path }) => path
                .get_ident()
                .map_or(false, |ident| ident.unraw() == type_ident.unraw()),
            _ => false,
        }""","""        let mut ty = self;
        while let Type::Group(TypeGroup { elem, .. }) = ty {
            ty = elem;
        }
        if let Type::Path(TypePath { qself: None, path }) = ty {
            matches!(path.get_ident(), Some(ident) if ident.unraw() == type_ident.unraw())
        } else {
            false
        }"""))
m("s_subs_generic",None,(SE,"        let mut folder = SubsTypeFolder::new(type_ident, subs_ident);\n        folder.fold_where_predicate(self)","        SubsTypeFolder {\n            type_ident,\n            subs_ident,\n        }\n        .fold_where_predicate(self)"),(SE,"        let mut folder = SubsTypeFolder::new(type_ident, subs_ident);\n        folder.fold_trait_bound(self)","        fold::fold_trait_bound(&mut SubsTypeFolder::new(type_ident, subs_ident), self)"))
m("s_generic_arg",None,(SE,"""            GenericParam::Type(TypeParam { ident, .. }) => GenericArgument::Type(ident.into_type()),
            GenericParam::Lifetime(LifetimeParam { lifetime, .. }) => {
                GenericArgument::Lifetime(lifetime)
            }
            GenericParam::Const(ConstParam { ident, .. }) => {
                GenericArgument::Type(ident.into_type())
            }""","""            GenericParam::Lifetime(LifetimeParam { lifetime, .. }) => {
                GenericArgument::Lifetime(lifetime)
            }
            GenericParam::Type(TypeParam { ident, .. })
            | GenericParam::Const(ConstParam { ident, .. }) => {
                GenericArgument::Type(ident.into_type())
            }"""))
m("s_generic_arg_expr",None,(SE,"""            GenericParam::Const(ConstParam { ident, .. }) => {
                GenericArgument::Type(ident.into_type())
            }""","""            GenericParam::Const(ConstParam { ident, .. }) => {
                GenericArgument::Const(syn::parse_quote!(#ident))
            }"""))
m("s_into_type",None,(SE,"        Type::Path(TypePath {\n            qself: None,\n            path: self.into(),\n        })","        syn::parse_quote!(#self)"))
m("s_typish",None,(SE,"matches!(self, GenericArgument::Type(..) | GenericArgument::Const(..))","match self {\n            GenericArgument::Type(..) | GenericArgument::Const(..) => true,\n            _ => false,\n        }"),(SE,"matches!(self, GenericParam::Type(..) | GenericParam::Const(..))","!matches!(self, GenericParam::Lifetime(..))"))
m("s_non_empty",None,(SE,"""        match self.to_token_stream() {
            tokens if !tokens.is_empty() => Some(tokens),
            _ => None,
        }""","""        let tokens = self.to_token_stream();
        (!tokens.is_empty()).then(|| tokens)"""))
m("s_attrs_direct",None,(SE,"        WithoutAttrsFolder.fold_const_param(self)","        Self {\n            attrs: Vec::new(),\n            ..self\n        }"),(SE,"        WithoutAttrsFolder.fold_lifetime_param(self)","        let mut param = self;\n        param.attrs.clear();\n        param"))
m("s_attrs_clear",None,(SE,"""        TypeParam {
            attrs: Vec::new(),
            ..type_param
        }""","""        let mut type_param = type_param;
        type_param.attrs.clear();
        type_param"""))
m("s_attrs_generic",None,(SE,"        WithoutAttrsFolder.fold_generic_param(self)","        match self {\n            Self::Type(param) => Self::Type(WithoutAttrsFolder.fold_type_param(param)),\n            Self::Const(param) => Self::Const(param.without_attrs()),\n            Self::Lifetime(param) => Self::Lifetime(param.without_attrs()),\n        }"))
m("s_default_mut",None,(SE,"""            Self::Type(type_param) => Self::Type(type_param.without_default()),
            Self::Const(const_param) => Self::Const(const_param.without_default()),
            Self::Lifetime(..) => self,""","""            Self::Lifetime(..) => self,
            Self::Type(mut type_param) => {
                type_param.eq_token = None;
                type_param.default = None;
                Self::Type(type_param)
            }
            Self::Const(const_param) => Self::Const(const_param.without_default()),"""))
m("s_maybe_match",None,(SE,"""                !matches!(
                    bound,
                    TypeParamBound::Trait(TraitBound {
                        modifier: TraitBoundModifier::Maybe(..),
                        ..
                    })
                )""","""                if let TypeParamBound::Trait(bound) = bound {
                    match bound.modifier {
                        TraitBoundModifier::Maybe(..) => false,
                        TraitBoundModifier::None => true,
                    }
                } else {
                    true
                }"""))
m("s_maybe_pred",None,(SE,"        Self {\n            bounds: self.bounds.without_maybe_bounds(),\n            ..self\n        }","        let mut predicate = self;\n        predicate.bounds = predicate.bounds.without_maybe_bounds();\n        predicate"))
m("s_subs_both",None,(MA,"        (self.subs_src_type(ty.clone()), self.subs_dst_type(ty))","        let dst = self.subs_dst_type(ty.clone());\n        let src = self.subs_src_type(ty);\n        (src, dst)"))
m("s_self_args_loop",None,(SE,"""        let args = self
            .generics
            .params
            .iter()
            .cloned()
            .map(IntoGenericArgument::into_generic_argument)
            .collect();
""","""        let mut args = Punctuated::new();
        for param in &self.generics.params {
            args.push(param.clone().into_generic_argument());
        }
"""))
m("s_self_first",None,(SE,"            Type::Path(TypePath { qself: None, path }) if path.is_ident(\"Self\") => {\n                self.self_type(path.segments[0].ident.span())\n            }","            Type::Path(TypePath { qself: None, path }) if path.is_ident(\"Self\") => {\n                let ident = &path.segments[0].ident;\n                let span = ident.span();\n                self.self_type(span)\n            }"))
m("t_param_span","C18",(OP,"            Self::TypeOrConst(ident) => ident.to_tokens(tokens),","            Self::TypeOrConst(ident) => Ident::new_raw(&ident.to_string(), proc_macro2::Span::call_site()).to_tokens(tokens),"))
m("t_typish_param","C13",(SE,"matches!(self, GenericParam::Type(..) | GenericParam::Const(..))","matches!(self, GenericParam::Type(..))"))
m("t_typish_arg","C11",(SE,"matches!(self, GenericArgument::Type(..) | GenericArgument::Const(..))","matches!(self, GenericArgument::Type(..))"))
m("t_attr_const","C13,C14",(SE,"        ConstParam {\n            attrs: Vec::new(),\n            ..const_param","        ConstParam {\n            ..const_param"))
m("t_attr_lifetime","C13,C14",(SE,"        LifetimeParam {\n            attrs: Vec::new(),\n            ..lifetime_param","        LifetimeParam {\n            ..lifetime_param"))
m("t_attr_type","C13,C14",(SE,"        TypeParam {\n            attrs: Vec::new(),\n            ..type_param","        TypeParam {\n            ..type_param"))
m("t_default_const","C13",(SE,"            Self::Const(const_param) => Self::Const(const_param.without_default()),","            Self::Const(const_param) => Self::Const(const_param),"))
m("t_scan","C11",(MA,"if *marker_arg_idx >= mapped_until_idx {","if *marker_arg_idx > mapped_until_idx {"))
m("t_leading","C11,C15",(MA,"                                leading_colon: *leading_colon,","                                leading_colon: None,"))
m("t_qself","C11,C15",(MA,"                            qself: qself.clone(),","                            qself: None,"))
m("t_prefix","C11,C15",(MA,"                                segments: prefix\n                                    .iter()\n                                    .cloned()","                                segments: prefix\n                                    .iter()\n                                    .cloned()\n                                    .take(2)"))
m("t_maybe_hrtb","C14",(SE,"            .filter(|bound| {\n                !matches!(\n","            .filter(|bound| {\n                !matches!(bound, TypeParamBound::Trait(TraitBound { lifetimes: Some(..), .. })) && !matches!(\n"))
m("t_maybe_paren","C14",(SE,"            .filter(|bound| {\n                !matches!(\n","            .filter(|bound| {\n                !matches!(bound, TypeParamBound::Trait(TraitBound { paren_token: Some(..), .. })) && !matches!(\n"))
m("t_tokens_none","C15",(IC,"                TokenTree::Group(group) => self.visit_tokens(group.stream()),","                TokenTree::Group(group) if group.delimiter() != proc_macro2::Delimiter::Brace => self.visit_tokens(group.stream()),\n                TokenTree::Group(..) => (),"))
m("t_macro_path",None,(IC,"        visit::visit_macro(self, mac);\n\n","        let _ = visit::visit_macro::<Self>;\n"))
m("t_pred_hrtb","C14",(PR,"                    lifetimes: predicate_type.lifetimes,","                    lifetimes: predicate_type.lifetimes.filter(|l| l.lifetimes.len() < 3),"))
m("t_lts_rev",None,(PR,"        for_lifetimes.chain(for_types)","        for_types.chain(for_lifetimes)"))
m("t_self_nested","C14,C15,C11",(SE,"            Type::Path(TypePath { qself: None, path }) if path.is_ident(\"Self\") => {","            Type::Path(TypePath { qself: None, path }) if path.is_ident(\"Self\") && self.args.len() < 5 => {"))
m("t_self_assoc","C14,C15,C11",(SE,"            ty => fold::fold_type(self, ty),\n        }\n    }\n\n    fn fold_item","            Type::Path(ty) if ty.qself.is_some() => Type::Path(ty),\n            ty => fold::fold_type(self, ty),\n        }\n    }\n\n    fn fold_item"))
m("t_self_const","C13,C14",(SE,"            GenericParam::Const(ConstParam { ident, .. }) => {\n                GenericArgument::Type(ident.into_type())\n            }","            GenericParam::Const(ConstParam { default: Some(default), .. }) => GenericArgument::Const(default),\n            GenericParam::Const(ConstParam { ident, .. }) => {\n                GenericArgument::Type(ident.into_type())\n            }"))
m("s_ident_format",None,(ID,"        Ident::new(self.0, Span::call_site())","        quote::format_ident!(\"{}\", self.0)"))
m("t_ident_format","C20",(ID,"        Ident::new(self.0, Span::call_site())","        quote::format_ident!(\"{}\", self.0[1..])"))
m("t_letter_format","C20",(IC,"        let ident = Ident::new(&letter, span);","        let ident = quote::format_ident!(\"{}\", letter.trim_start_matches(desired_letter), span = span);"))
m("s_letter_format",None,(IC,"        let ident = Ident::new(&letter, span);","        let ident = quote::format_ident!(\"{}\", letter, span = span);"))
