//! Impl headers, the marker trait and the crate's dependencies (C04, C05, C07, C08).
use crate::builtin::{find_traits, loc_str};
use crate::report::Rec;
use rustc_attr_ir::lang_items::LangItem;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_infer::traits::{Obligation, ObligationCause};
use rustc_middle::middle::privacy::Level;
use rustc_middle::ty::{self, GenericArg, GenericArgKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv, TypingMode};
use rustc_span::def_id::{DefId, CRATE_DEF_ID};
use rustc_span::sym;
use rustc_trait_selection::traits::query::evaluate_obligation::InferCtxtExt;

pub fn nonlife<'tcx>(a: &[GenericArg<'tcx>]) -> Vec<GenericArg<'tcx>> {
    a.iter().copied().filter(|x| !matches!(x.kind(), GenericArgKind::Lifetime(_))).collect()
}

/// type constructor and the arguments that count for marker indices
pub fn head_args<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<(String, DefKind2, Vec<GenericArg<'tcx>>)> {
    match t.kind() {
        TyKind::Adt(d, a) => Some((tcx.def_path_str(d.did()), DefKind2::Adt(d.did()), nonlife(a))),
        TyKind::Array(e, n) => Some(("array".into(), DefKind2::Array, vec![(*e).into(), (*n).into()])),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum DefKind2 {
    Adt(DefId),
    Array,
}

/// index of a marker type, `None` for a parameter or anything else
pub fn marker_index<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<u64> {
    let TyKind::Adt(d, a) = t.kind() else { return None };
    if tcx.crate_name(d.did().krate).as_str() != "funcmap" {
        return None;
    }
    let [g] = a.as_slice() else { return None };
    let c = g.as_const()?;
    if let Some(n) = c.try_to_target_usize(tcx) {
        return Some(n);
    }
    if c.has_param() {
        return None;
    }
    let c = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new(c)).ok()?;
    c.try_to_target_usize(tcx)
}

pub fn holds<'tcx>(tcx: TyCtxt<'tcx>, env: ty::ParamEnv<'tcx>, p: ty::Clause<'tcx>) -> bool {
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    let p: ty::Predicate<'tcx> = p.as_predicate();
    if p.has_escaping_bound_vars() {
        return false;
    }
    infcx.predicate_must_hold_modulo_regions(&Obligation::new(tcx, ObligationCause::dummy(), env, p))
}

pub fn clause<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, args: &[GenericArg<'tcx>]) -> ty::Clause<'tcx> {
    use rustc_middle::ty::Upcast;
    ty::TraitRef::new(tcx, tr, args.iter().copied()).upcast(tcx)
}

pub fn elaborated<'tcx>(tcx: TyCtxt<'tcx>, v: Vec<ty::Clause<'tcx>>) -> ty::ParamEnv<'tcx> {
    let all: Vec<ty::Clause<'tcx>> = rustc_infer::traits::util::elaborate(tcx, v).collect();
    ty::ParamEnv::new(tcx, all)
}

fn own_params<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Vec<Ty<'tcx>> {
    let mut v = vec![];
    let mut g = Some(tcx.generics_of(d));
    while let Some(x) = g {
        for p in &x.own_params {
            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                v.push(Ty::new_param(tcx, p.index, p.name));
            }
        }
        g = x.parent.map(|p| tcx.generics_of(p));
    }
    v
}

fn sized_clauses<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Vec<ty::Clause<'tcx>> {
    let s = tcx.lang_items().sized_trait().unwrap();
    let mut v: Vec<ty::Clause<'tcx>> = own_params(tcx, d).into_iter().map(|t| clause(tcx, s, &[t.into()])).collect();
    for (c, _) in tcx.clauses_of(d).instantiate_identity(tcx).into_iter() {
        let c = c.skip_norm_wip();
        if matches!(c.kind().skip_binder(), ty::ClauseKind::ConstArgHasType(..)) {
            v.push(c);
        }
    }
    v
}

fn diag<'tcx>(tcx: TyCtxt<'tcx>, n: &str) -> Option<DefId> {
    tcx.get_diagnostic_item(rustc_span::Symbol::intern(n))
}

/// what std itself needs to build the output of a mapping
fn needed<'tcx>(tcx: TyCtxt<'tcx>, out: Ty<'tcx>, imp: DefId) -> Vec<ty::Clause<'tcx>> {
    let mut v = sized_clauses(tcx, imp);
    let TyKind::Adt(d, a) = out.kind() else { return v };
    let path = tcx.def_path_str(d.did());
    let seg = |s: &str| path.split("::").any(|x| x == s);
    let mut add = |n: &str, t: GenericArg<'tcx>| {
        let tr = match n {
            "Eq" => tcx.lang_items().eq_trait().and_then(|pe| {
                tcx.all_traits_including_private().find(|t| tcx.item_name(*t).as_str() == "Eq" && t.krate == pe.krate)
            }),
            n => diag(tcx, n).or_else(|| tcx.all_traits_including_private().find(|t| tcx.item_name(*t).as_str() == n && matches!(tcx.crate_name(t.krate).as_str(), "core" | "std"))),
        };
        if let Some(tr) = tr {
            v.push(clause(tcx, tr, &[t]));
        }
    };
    let key = a.types().next();
    let ordered = ["BinaryHeap", "BTreeMap", "BTreeSet", "binary_heap", "btree_map", "btree_set"].iter().any(|s| seg(s));
    let hashed = ["HashMap", "HashSet", "hash_map", "hash_set"].iter().any(|s| seg(s));
    if let Some(k) = key {
        if ordered {
            add("Ord", k.into());
        }
        if hashed {
            add("Eq", k.into());
            add("Hash", k.into());
            // a hasher kept in the output has to be built
            if seg("HashMap") || seg("HashSet") {
                if let Some(s) = a.types().last() {
                    if matches!(s.kind(), TyKind::Param(_)) && s != k && !(seg("HashMap") && a.types().count() < 3) && !(seg("HashSet") && a.types().count() < 2) {
                        add("BuildHasher", s.into());
                        add("Default", s.into());
                    }
                }
            }
        }
    }
    v
}

pub fn run(tcx: TyCtxt<'_>) {
    let Some((fm, tfm)) = find_traits(tcx) else {
        Rec::new("fatal").s("msg", "mapping traits not found").emit();
        return;
    };
    for (tr, name) in [(fm, "FuncMap"), (tfm, "TryFuncMap")] {
        let impls = tcx.all_local_trait_impls(()).get(&tr).cloned().unwrap_or_default();
        for i in impls {
            one(tcx, i.to_def_id(), name);
        }
        trait_decl(tcx, tr, name);
    }
    markers(tcx, fm, tfm);
    deps(tcx);
}

fn one<'tcx>(tcx: TyCtxt<'tcx>, imp: DefId, trait_name: &str) {
    let tref = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
    let tref = tcx.erase_and_anonymize_regions(tref);
    let slf = tref.args.type_at(0);
    let (a, b, p) = (tref.args.type_at(1), tref.args.type_at(2), tref.args.type_at(3));
    let mut bad: Vec<String> = vec![];
    let mut out = None;
    for it in tcx.associated_items(imp).in_definition_order() {
        if !it.is_fn() {
            out = Some(tcx.erase_and_anonymize_regions(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()));
        }
    }
    let isparam = |t: Ty<'tcx>| matches!(t.kind(), TyKind::Param(_));
    if !isparam(a) || !isparam(b) || a == b {
        bad.push(format!("source {a} and target {b} are not two different type parameters"));
    }
    let idx = marker_index(tcx, p);
    let Some(idx) = idx else {
        bad.push(format!("marker {p} is not one specific index"));
        emit_impl(tcx, imp, trait_name, &format!("{slf}"), "", -1, &bad, &[], &format!("{out:?}"));
        return;
    };
    let mut head = format!("{slf}");
    let mut fixed: Vec<String> = vec![];
    let mut krate = "core".to_string();
    match (head_args(tcx, slf), out.and_then(|o| head_args(tcx, o))) {
        (Some((h, d, sa)), Some((oh, od, oa))) => {
            head = h;
            if let DefKind2::Adt(d) = d {
                krate = tcx.crate_name(d.krate).to_string();
            }
            if d != od || sa.len() != oa.len() {
                bad.push(format!("the output type {oh} is not {head}"));
            } else {
                for (i, (s, o)) in sa.iter().zip(&oa).enumerate() {
                    let mapped = i as u64 == idx;
                    if mapped {
                        if *s != GenericArg::from(a) {
                            bad.push(format!("parameter {i} of {slf} is {s}, not the source type {a}"));
                        }
                        if *o != GenericArg::from(b) {
                            bad.push(format!("parameter {i} of the output is {o}, not the target type {b}"));
                        }
                    } else {
                        let mentions = |g: GenericArg<'tcx>, t: Ty<'tcx>| g.walk().any(|x| x == GenericArg::from(t));
                        if s != o {
                            bad.push(format!("parameter {i} is {s} in the source but {o} in the output"));
                        } else if mentions(*s, a) || mentions(*s, b) {
                            bad.push(format!("parameter {i} ({s}) depends on the mapped type"));
                        }
                    }
                }
                for (i, s) in sa.iter().enumerate() {
                    if i as u64 == idx {
                        continue;
                    }
                    let param = match s.kind() {
                        GenericArgKind::Type(t) => matches!(t.kind(), TyKind::Param(_)),
                        GenericArgKind::Const(c) => matches!(c.kind(), ty::ConstKind::Param(_)),
                        _ => true,
                    };
                    // the allocator parameter is not available on stable
                    let global = s.as_type().is_some_and(|t| t.ty_adt_def().is_some_and(|d| tcx.item_name(d.did()).as_str() == "Global"));
                    if !(param || global) {
                        fixed.push(format!("parameter {i} to be {s}"));
                    } else if param && sa[..i].contains(s) {
                        fixed.push(format!("parameter {i} to be the same as an earlier one ({s})"));
                    }
                }
                if idx as usize >= sa.len() {
                    bad.push(format!("{slf} has no parameter {idx}"));
                }
            }
        }
        (s, _) => bad.push(format!("{} type {} is not a known type constructor", if s.is_none() { "self" } else { "output" }, slf)),
    }
    // predicates beyond what building the output takes
    let allow = elaborated(tcx, needed(tcx, out.unwrap_or(slf), imp));
    let mut extra = fixed;
    for (c, _) in tcx.clauses_of(imp).instantiate_identity(tcx).into_iter() {
        let c = c.skip_norm_wip();
        // regions are not part of what `holds` decides
        let outlives = matches!(c.kind().skip_binder(), ty::ClauseKind::TypeOutlives(..) | ty::ClauseKind::RegionOutlives(..));
        if outlives || !holds(tcx, allow, c) {
            extra.push(format!("{c}"));
        }
    }
    emit_impl(tcx, imp, trait_name, &head, &krate, idx as i64, &bad, &extra, &format!("{out:?}"));
}

fn emit_impl(tcx: TyCtxt<'_>, imp: DefId, tr: &str, head: &str, krate: &str, idx: i64, bad: &[String], extra: &[String], out: &str) {
    Rec::new("impl")
        .s("trait", tr)
        .s("head", head)
        .s("crate", krate)
        .n("index", idx)
        .l("bad", bad.iter())
        .l("extra", extra.iter())
        .s("out", out)
        .s("shape", shape(tcx, imp))
        .s("at", loc_str(tcx, tcx.def_span(imp)))
        .s("header", tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip().to_string())
        .emit();
}

/// self type and output with the impl's parameters numbered by occurrence
fn shape<'tcx>(tcx: TyCtxt<'tcx>, imp: DefId) -> String {
    let r = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
    let mut tys = vec![r.self_ty()];
    for it in tcx.associated_items(imp).in_definition_order() {
        if !it.is_fn() {
            tys.push(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip());
        }
    }
    let mut seen: Vec<GenericArg<'tcx>> = vec![];
    for t in &tys {
        for g in GenericArg::from(*t).walk() {
            let p = match g.kind() {
                GenericArgKind::Type(t) => matches!(t.kind(), TyKind::Param(_)),
                GenericArgKind::Const(c) => matches!(c.kind(), ty::ConstKind::Param(_)),
                _ => false,
            };
            if p && !seen.contains(&g) {
                seen.push(g);
            }
        }
    }
    let args = ty::GenericArgs::for_item(tcx, imp, |p, _| {
        let me = ty::GenericArgs::identity_for_item(tcx, imp)[p.index as usize];
        match (seen.iter().position(|x| *x == me), me.kind()) {
            (Some(k), GenericArgKind::Type(_)) => Ty::new_param(tcx, p.index, rustc_span::Symbol::intern(&format!("p{k}"))).into(),
            (Some(k), GenericArgKind::Const(_)) => {
                ty::Const::new_param(tcx, ty::ParamConst::new(p.index, rustc_span::Symbol::intern(&format!("p{k}")))).into()
            }
            _ => me,
        }
    });
    let v: Vec<String> = tys
        .iter()
        .map(|t| {
            let t = ty::EarlyBinder::bind(tcx, *t).instantiate(tcx, args).skip_norm_wip();
            tcx.erase_and_anonymize_regions(t).to_string()
        })
        .collect();
    v.join(" => ")
}

/// the trait that restricts the marker parameter
fn marker_trait<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId) -> Vec<DefId> {
    let p = ty::GenericArgs::identity_for_item(tcx, tr).type_at(3);
    let mut v = vec![];
    for (c, _) in tcx.clauses_of(tr).instantiate_identity(tcx).into_iter() {
        let c = c.skip_norm_wip();
        if let ty::ClauseKind::Trait(t) = c.kind().skip_binder() {
            if t.self_ty() == p && t.trait_ref.args.len() == 2 && t.trait_ref.args.type_at(1) == p {
                v.push(t.def_id());
            }
        }
    }
    v
}

fn trait_decl<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, name: &str) {
    let mk = marker_trait(tcx, tr);
    let mut extra: Vec<(String, rustc_span::Span)> = vec![];
    let targs = ty::GenericArgs::identity_for_item(tcx, tr);
    let (a, b, p) = (targs.type_at(1), targs.type_at(2), targs.type_at(3));
    let _ = p;
    let allowed = |c: ty::Clause<'tcx>, f: Option<(Ty<'tcx>, Option<Ty<'tcx>>)>| -> bool {
        match c.kind().skip_binder() {
            ty::ClauseKind::Trait(t) => {
                tcx.is_lang_item(t.def_id(), LangItem::Sized)
                    || t.def_id() == tr
                    || mk.contains(&t.def_id())
                    || f.is_some_and(|(f, _)| {
                        t.self_ty() == f
                            && [LangItem::FnMut, LangItem::FnOnce].iter().any(|l| tcx.is_lang_item(t.def_id(), *l))
                            && t.trait_ref.args.type_at(1) == Ty::new_tup(tcx, &[a])
                    })
            }
            ty::ClauseKind::Projection(p) => f.is_some_and(|(f, e)| {
                let Some(t) = p.term.as_type() else { return false };
                p.self_ty() == f && match (e, t.kind()) {
                    (None, _) => t == b,
                    (Some(e), TyKind::Adt(d, ga)) => {
                        tcx.is_diagnostic_item(sym::Result, d.did()) && ga.type_at(0) == b && ga.type_at(1) == e
                    }
                    _ => false,
                }
            }),
            _ => false,
        }
    };
    for (c, s) in tcx.clauses_of(tr).instantiate_identity(tcx).into_iter() {
        let c = c.skip_norm_wip();
        if !allowed(c, None) {
            extra.push((format!("{name}: {c}"), s));
        }
    }
    let mut q_fixed = 0;
    for it in tcx.associated_items(tr).in_definition_order() {
        if it.is_fn() {
            let sig = tcx.fn_sig(it.def_id).instantiate_identity().skip_norm_wip().skip_binder();
            let f = sig.inputs()[1];
            let e = match sig.output().kind() {
                TyKind::Adt(d, ga) if tcx.is_diagnostic_item(sym::Result, d.did()) => Some(ga.type_at(1)),
                _ => None,
            };
            for (c, s) in tcx.clauses_of(it.def_id).instantiate_own_identity() {
                let c = c.skip_norm_wip();
                if !allowed(c, Some((f, e))) {
                    extra.push((format!("{name}::{}: {c}", it.name()), s));
                }
                if let ty::ClauseKind::Trait(t) = c.kind().skip_binder() {
                    if mk.contains(&t.def_id()) && t.trait_ref.args.type_at(1) == p && it.name().as_str().ends_with("_over") {
                        q_fixed += 1;
                    }
                }
            }
        } else {
            for c in tcx.item_bounds(it.def_id).instantiate_identity().skip_norm_wip().iter() {
                if !allowed(c, None) {
                    extra.push((format!("{name}::{}: {c}", it.name()), tcx.def_span(it.def_id)));
                }
            }
        }
    }
    let def = tcx.generics_of(tr).own_params.get(3).and_then(|p| p.default_value(tcx)).and_then(|d| {
        let d = d.instantiate_identity().skip_norm_wip();
        marker_index(tcx, d.as_type()?)
    });
    Rec::new("trait")
        .s("trait", name)
        .l("marker_traits", mk.iter().map(|d| tcx.def_path_str(*d)))
        .l("extra", extra.iter().map(|x| format!("{} ({})", x.0, loc_str(tcx, x.1))))
        .n("default_index", def.map_or(-1, |x| x as i64))
        .n("over_methods_bound", q_fixed)
        .n("over_methods", tcx.associated_items(tr).in_definition_order().filter(|i| i.is_fn() && i.name().as_str().ends_with("_over")).count() as i64)
        .s("at", loc_str(tcx, tcx.def_span(tr)))
        .emit();
}

fn markers<'tcx>(tcx: TyCtxt<'tcx>, fm: DefId, tfm: DefId) {
    let mut bad: Vec<(String, rustc_span::Span)> = vec![];
    let (a, b) = (marker_trait(tcx, fm), marker_trait(tcx, tfm));
    let mut checked = vec![];
    let mut marker_ty = None;
    if a.is_empty() || a != b {
        bad.push(("the two traits do not restrict their marker by the same trait".into(), tcx.def_span(fm)));
    }
    let eff = tcx.effective_visibilities(());
    for m in &a {
        let Some(ml) = m.as_local() else {
            bad.push(("the marker trait is foreign".into(), tcx.def_span(*m)));
            continue;
        };
        // transitive supertraits, as seen from the marker trait's own parameters
        let root = ty::TraitRef::identity(tcx, *m);
        let mut sup = vec![root];
        let mut k = 0;
        while k < sup.len() {
            let cur = sup[k];
            for (c, _) in tcx.explicit_super_clauses_of(cur.def_id).iter_instantiated_copied(tcx, cur.args).map(|x| x.skip_norm_wip()) {
                if let ty::ClauseKind::Trait(t) = c.kind().skip_binder() {
                    if t.trait_ref.self_ty() == root.self_ty() && !sup.contains(&t.trait_ref) {
                        sup.push(t.trait_ref);
                    }
                }
            }
            k += 1;
        }
        let mut sealed = false;
        for sref in &sup {
            let s = &sref.def_id;
            // the seal has to cover the argument too, or a foreign crate could
            // make a marker stand for a type of its own
            let covers = sref.args.as_slice() == root.args.as_slice();
            let Some(l) = s.as_local() else { continue };
            let exported = eff.is_public_at_level(l, Level::Reexported);
            let impls = tcx.all_local_trait_impls(()).get(s).cloned().unwrap_or_default();
            let mut own = covers && !impls.is_empty();
            for i in &impls {
                let r = tcx.erase_and_anonymize_regions(tcx.impl_trait_ref(i.to_def_id()).instantiate_identity().skip_norm_wip());
                let st = r.self_ty();
                let local = matches!(st.kind(), TyKind::Adt(d, _) if d.did().is_local());
                let itself = r.args.iter().skip(1).all(|x| x == GenericArg::from(st));
                own &= local && itself;
                if *s == *m {
                    checked.push(format!("{r}"));
                    if !local {
                        bad.push((format!("{st} is a marker"), tcx.def_span(i.to_def_id())));
                    }
                    if !itself {
                        bad.push((format!("{r}: a marker does not stand for itself only"), tcx.def_span(i.to_def_id())));
                    }
                    if let TyKind::Adt(d, ga) = st.kind() {
                        let generic = ga.len() == 1 && ga.consts().next().is_some_and(|c| matches!(c.kind(), ty::ConstKind::Param(_)));
                        if !generic {
                            bad.push((format!("{st} does not cover every index"), tcx.def_span(i.to_def_id())));
                        }
                        marker_ty.get_or_insert(d.did());
                        let env = TypingEnv::post_analysis(tcx, i.to_def_id());
                        if st.inhabited_predicate(tcx).apply_any_module(tcx, env) != Some(false) {
                            bad.push((format!("the marker type {st} is inhabited"), tcx.def_span(d.did())));
                        }
                    }
                }
            }
            if !exported && own {
                sealed = true;
            }
        }
        if !sealed {
            bad.push((
                format!("{} is not sealed: other crates can implement it", tcx.def_path_str(*m)),
                tcx.def_span(ml.to_def_id()),
            ));
        }
        if tcx.all_local_trait_impls(()).get(m).map_or(true, |v| v.is_empty()) {
            bad.push(("no marker type".into(), tcx.def_span(*m)));
        }
    }
    if let Some(d) = marker_ty {
        let g = tcx.generics_of(d);
        let ok = g.own_params.len() == 1 && matches!(g.own_params[0].kind, ty::GenericParamDefKind::Const { .. })
            && tcx.type_of(g.own_params[0].def_id).instantiate_identity().skip_norm_wip() == tcx.types.usize;
        if !ok {
            bad.push(("the marker type is not indexed by one usize".into(), tcx.def_span(d)));
        }
    }
    Rec::new("marker")
        .l("bad", bad.iter().map(|x| format!("{} ({})", x.0, loc_str(tcx, x.1))))
        .l("impls", checked.iter())
        .l("traits", a.iter().map(|d| tcx.def_path_str(*d)))
        .emit();
}

fn deps(tcx: TyCtxt<'_>) {
    use rustc_crate_store::CrateDepKind;
    let mut used: Vec<String> = vec![];
    for c in tcx.crates(()) {
        if tcx.crate_dep_kind(*c) == CrateDepKind::MacrosOnly {
            continue;
        }
        used.push(tcx.crate_name(*c).to_string());
    }
    used.sort();
    let no_std = rustc_attr_ir::find_attr!(tcx, crate, NoStd);
    let at = loc_str(tcx, tcx.def_span(CRATE_DEF_ID));
    Rec::new("crate").l("crates", used.iter()).n("no_std", no_std as i64).s("at", at).emit();
}
