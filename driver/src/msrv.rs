//! Library items and language features newer than the documented minimum version (C24).
use crate::builtin::loc_str;
use crate::report::Rec;
use rustc_ast as ast;
use rustc_ast::visit::{self as av, Visitor as _};
use rustc_attr_ir::{StabilityLevel, StableSince};
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::intravisit as hv;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_infer::traits::{ImplSource, Obligation, ObligationCause};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_middle::ty::{self, TyCtxt, TypeVisitableExt, TypingMode};
use rustc_span::def_id::DefId;
use rustc_span::{sym, ExpnKind, MacroKind, Span};
use rustc_trait_selection::traits::SelectionContext;
use std::collections::HashSet;

const STD: [&str; 5] = ["core", "alloc", "std", "proc_macro", "test"];

#[derive(Clone, Copy)]
struct Scope<'tcx> {
    tcx: TyCtxt<'tcx>,
    derived_only: bool,
}
impl<'tcx> Scope<'tcx> {
    /// written by the crate (or generated by the derives) rather than by a macro of someone else
    fn ours(&self, sp: Span) -> bool {
        let mut sp = sp;
        let mut derived = false;
        let mut first = true;
        while sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            match d.kind {
                ExpnKind::Desugaring(_) | ExpnKind::AstPass(_) if first => return false,
                ExpnKind::Macro(k, _) => {
                    let of = d.macro_def_id.map(|m| self.tcx.crate_name(m.krate).to_string());
                    let own = d.macro_def_id.is_none_or(|m| m.is_local()) || of.as_deref() == Some("funcmap_derive");
                    derived |= matches!(k, MacroKind::Derive) && of.as_deref() == Some("funcmap_derive");
                    if first && !own {
                        return false;
                    }
                }
                _ => {}
            }
            first = false;
            sp = d.call_site;
        }
        derived || !self.derived_only
    }
}

fn since(tcx: TyCtxt<'_>, d: DefId) -> Option<(u16, u16)> {
    if d.is_local() || !STD.contains(&tcx.crate_name(d.krate).as_str()) {
        return None;
    }
    let s = tcx.lookup_stability(d).or_else(|| matches!(tcx.def_kind(d), DefKind::Ctor(..)).then(|| tcx.lookup_stability(tcx.parent(d))).flatten())?;
    version(s.level)
}
fn version(l: StabilityLevel) -> Option<(u16, u16)> {
    match l {
        StabilityLevel::Stable { since: StableSince::Version(v), .. } => Some((v.major, v.minor)),
        StabilityLevel::Stable { since: StableSince::Current, .. } => Some((1, 999)),
        _ => None,
    }
}

fn name(v: (u16, u16)) -> String {
    if v.1 == 999 {
        "the coming release".into()
    } else {
        format!("{}.{}", v.0, v.1)
    }
}

struct Out<'tcx> {
    sc: Scope<'tcx>,
    min: (u16, u16),
    seen: HashSet<(String, String)>,
    items: HashSet<DefId>,
    n: i64,
}
impl<'tcx> Out<'tcx> {
    fn flag(&mut self, sp: Span, what: String, since: String) {
        let at = loc_str(self.sc.tcx, sp.source_callsite());
        if self.seen.insert((what.clone(), at.clone())) {
            Rec::new("msrv").s("what", what).s("since", since).s("at", at).emit();
        }
    }
    fn feature(&mut self, sp: Span, what: &str, minor: u16) {
        if (1, minor) > self.min && self.sc.ours(sp) {
            self.flag(sp, what.into(), format!("1.{minor}"));
        }
    }
    fn item(&mut self, sp: Span, d: DefId, how: &str) {
        self.n += 1;
        if let Some(v) = since(self.sc.tcx, d) {
            self.items.insert(d);
            if v > self.min {
                let p = if self.sc.tcx.def_kind(d) == (DefKind::Impl { of_trait: true }) {
                    format!("impl of {}", self.sc.tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip().print_only_trait_path())
                } else {
                    self.sc.tcx.def_path_str(d)
                };
                self.flag(sp, format!("{how}{p}"), name(v));
            }
        }
    }
    /// std macros that the crate calls
    fn macros(&mut self, sp: Span) {
        let mut sp = sp;
        while sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            if let (ExpnKind::Macro(..), Some(m)) = (d.kind, d.macro_def_id) {
                if self.sc.ours(d.call_site) {
                    self.item(d.call_site, m, "macro ");
                }
            }
            sp = d.call_site;
        }
    }
}

// ---------------------------------------------------------------- syntax
struct Syn<'a, 'tcx> {
    o: &'a mut Out<'tcx>,
    cond: Vec<ast::NodeId>,
}
/// `let`s that are the whole condition
fn plain_let(e: &ast::Expr) -> Option<ast::NodeId> {
    match &e.kind {
        ast::ExprKind::Let(..) => Some(e.id),
        _ => None,
    }
}
impl<'a, 'tcx, 'v> av::Visitor<'v> for Syn<'a, 'tcx> {
    fn visit_expr(&mut self, e: &'v ast::Expr) {
        use ast::ExprKind as K;
        match &e.kind {
            K::ConstBlock(..) => self.o.feature(e.span, "inline const block", 79),
            K::If(c, ..) | K::While(c, ..) => self.cond.extend(plain_let(c)),
            K::Let(..) if !self.cond.contains(&e.id) => self.o.feature(e.span, "`let` within a larger condition or guard", 88),
            K::AddrOf(ast::BorrowKind::Raw, ..) => self.o.feature(e.span, "&raw", 82),
            K::Closure(c) if c.coroutine_marker.is_some() => self.o.feature(e.span, "async closure", 85),
            K::Lit(l) if matches!(l.kind, ast::token::LitKind::CStr | ast::token::LitKind::CStrRaw(_)) => self.o.feature(e.span, "C string literal", 77),
            K::Repeat(_, n) if matches!(n.value.kind, K::Underscore) => self.o.feature(e.span, "inferred array length", 89),
            _ => {}
        }
        av::walk_expr(self, e)
    }
    fn visit_pat(&mut self, p: &'v ast::Pat) {
        use ast::{PatKind as K, RangeEnd as R};
        if let K::Range(a, b, end) = &p.kind {
            match (a, b, end.node) {
                (_, Some(_), R::Excluded) => self.o.feature(p.span, "exclusive range pattern", 80),
                (None, Some(_), _) => self.o.feature(p.span, "range pattern without start", 66),
                _ => {}
            }
        }
        av::walk_pat(self, p)
    }
    fn visit_assoc_item_constraint(&mut self, c: &'v ast::AssocItemConstraint) {
        if let ast::AssocItemConstraintKind::Bound { .. } = c.kind {
            self.o.feature(c.span, "bound on an associated type", 79);
        }
        av::walk_assoc_item_constraint(self, c)
    }
    fn visit_param_bound(&mut self, b: &'v ast::GenericBound, c: av::BoundKind) {
        if let ast::GenericBound::Use(_, sp) = b {
            self.o.feature(*sp, "use<..> bound", 82);
        }
        let _ = c;
        av::walk_param_bound(self, b)
    }
    fn visit_attribute(&mut self, a: &'v ast::Attribute) {
        if let ast::AttrKind::Normal(n) = &a.kind {
            match n.item.path.segments[0].ident.name.as_str() {
                "expect" => self.o.feature(a.span, "#[expect]", 81),
                "diagnostic" => self.o.feature(a.span, "#[diagnostic::..]", 78),
                _ => {}
            }
        }
        if let ast::AttrKind::Normal(n) = &a.kind {
            if let ast::Safety::Unsafe(_) = n.item.unsafety {
                self.o.feature(a.span, "#[unsafe(..)]", 82);
            }
        }
        av::walk_attribute(self, a)
    }
    fn visit_item(&mut self, i: &'v ast::Item) {
        match &i.kind {
            ast::ItemKind::ForeignMod(m) if matches!(m.safety, ast::Safety::Unsafe(_)) => self.o.feature(i.span, "unsafe extern block", 82),
            ast::ItemKind::Enum(_, _, d) => {
                let data = d.variants.iter().any(|v| !matches!(v.data, ast::VariantData::Unit(..)));
                if data && d.variants.iter().any(|v| v.disr_expr.is_some()) {
                    self.o.feature(i.span, "discriminants on variants with fields", 66);
                }
            }
            _ => {}
        }
        av::walk_item(self, i)
    }
    fn visit_assoc_item(&mut self, i: &'v ast::AssocItem, c: av::AssocCtxt) {
        if let ast::AssocItemKind::Fn(f) = &i.kind {
            let ret = match &f.sig.decl.output {
                ast::FnRetTy::Ty(t) => matches!(t.kind, ast::TyKind::ImplTrait(..)),
                _ => false,
            };
            let in_trait = match c {
                av::AssocCtxt::Trait => true,
                av::AssocCtxt::Impl { of_trait } => of_trait,
            };
            if in_trait && (ret || f.sig.header.coroutine_marker.is_some()) {
                self.o.feature(i.span, "impl Trait or async in a trait's method", 75);
            }
        }
        av::walk_assoc_item(self, i, c)
    }
}

// ---------------------------------------------------------------- items
struct Lib<'a, 'tcx> {
    o: &'a mut Out<'tcx>,
    tr: Option<&'tcx ty::TypeckResults<'tcx>>,
    env: ty::ParamEnv<'tcx>,
    is_const: bool,
}
fn variant_of(tcx: TyCtxt<'_>, p: &hir::Pat<'_>, tr: &ty::TypeckResults<'_>) -> Option<Vec<DefId>> {
    let q = match &p.kind {
        hir::PatKind::TupleStruct(q, ..) | hir::PatKind::Struct(q, ..) => (q, p.hir_id),
        hir::PatKind::Expr(e) => match &e.kind {
            hir::PatExprKind::Path(q) => (q, e.hir_id),
            _ => return None,
        },
        hir::PatKind::Or(ps) => {
            let mut v = vec![];
            for p in *ps {
                v.extend(variant_of(tcx, p, tr)?);
            }
            return Some(v);
        }
        hir::PatKind::Ref(p, ..) | hir::PatKind::Binding(_, _, _, Some(p)) => return variant_of(tcx, p, tr),
        _ => return None,
    };
    match tr.qpath_res(q.0, q.1) {
        Res::Def(DefKind::Ctor(hir::def::CtorOf::Variant, _), d) => Some(vec![tcx.parent(d)]),
        Res::Def(DefKind::Variant, d) => Some(vec![d]),
        _ => None,
    }
}
fn all_variants(tcx: TyCtxt<'_>, vs: &[DefId]) -> bool {
    vs.is_empty() || tcx.adt_def(tcx.parent(vs[0])).variants().iter().all(|v| vs.contains(&v.def_id))
}

impl<'a, 'tcx> Lib<'a, 'tcx> {
    fn used(&mut self, sp: Span, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.o.sc.tcx;
        self.o.item(sp, d, "");
        if self.is_const && !d.is_local() && STD.contains(&tcx.crate_name(d.krate).as_str()) {
            if let Some(v) = tcx.lookup_const_stability(d).and_then(|s| version(s.level)).filter(|v| *v > self.o.min) {
                self.o.flag(sp, format!("{} in a const context", tcx.def_path_str(d)), name(v));
            }
        }
        let mut seen = HashSet::new();
        let mut todo: Vec<ty::PolyTraitRef<'tcx>> = vec![];
        if let Some(t) = tcx.trait_of_assoc(d) {
            todo.push(ty::Binder::dummy(ty::TraitRef::from_assoc(tcx, t, args)));
        }
        for (c, _) in tcx.clauses_of(d).instantiate(tcx, args) {
            if let Some(c) = c.skip_norm_wip().as_trait_clause() {
                todo.push(c.map_bound(|c| c.trait_ref));
            }
        }
        // which implementations are used for that
        let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
        let mut k = 0;
        while let Some(t) = todo.pop() {
            k += 1;
            if k > 60 || t.has_escaping_bound_vars() || !seen.insert(t) {
                continue;
            }
            let t = tcx.erase_and_anonymize_regions(t);
            let mut selcx = SelectionContext::new(&infcx);
            let ob = Obligation::new(tcx, ObligationCause::dummy(), self.env, t);
            let Ok(Some(ImplSource::UserDefined(i))) = selcx.poly_select(&ob) else { continue };
            // a trait that did not exist is not what the call was resolved by
            if since(tcx, t.def_id()).is_none_or(|v| v <= self.o.min) {
                self.o.item(sp, i.impl_def_id, "");
            }
            for n in i.nested {
                if let Some(c) = infcx.deeply_resolve_ignoring_regions(n.predicate).as_trait_clause() {
                    if !c.has_infer() {
                        todo.push(c.map_bound(|c| c.trait_ref));
                    }
                }
            }
        }
    }
    fn args(&self, id: hir::HirId) -> Option<ty::GenericArgsRef<'tcx>> {
        self.tr.filter(|t| t.hir_owner == id.owner).map(|t| t.node_args(id))
    }
}
impl<'a, 'tcx> hv::Visitor<'tcx> for Lib<'a, 'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.o.sc.tcx
    }
    fn visit_nested_body(&mut self, b: hir::BodyId) {
        let tcx = self.o.sc.tcx;
        let (tr, env, c) = (self.tr, self.env, self.is_const);
        let owner = tcx.hir_body_owner_def_id(b);
        self.is_const = tcx.hir_body_const_context(owner).is_some();
        self.tr = Some(tcx.typeck(owner));
        self.env = tcx.param_env(owner);
        hv::walk_body(self, tcx.hir_body(b));
        (self.tr, self.env, self.is_const) = (tr, env, c);
    }
    fn visit_path(&mut self, p: &hir::Path<'tcx>, id: hir::HirId) {
        if self.o.sc.ours(p.span) {
            for s in p.segments {
                if let Res::Def(_, d) = s.res {
                    self.o.item(s.ident.span, d, "");
                }
            }
            if let Res::Def(k, d) = p.res {
                self.o.item(p.span, d, "");
                if let (DefKind::Fn | DefKind::AssocFn, Some(a)) = (k, self.args(id)) {
                    if a.len() == self.o.sc.tcx.generics_of(d).count() {
                        self.used(p.span, d, a);
                    }
                }
            }
        }
        hv::walk_path(self, p)
    }
    fn visit_qpath(&mut self, q: &'tcx hir::QPath<'tcx>, id: hir::HirId, sp: Span) {
        if let (hir::QPath::TypeRelative(..), Some(tr)) = (q, self.tr.filter(|t| t.hir_owner == id.owner)) {
            if self.o.sc.ours(sp) {
                if let Some((_, d)) = tr.type_dependent_def(id) {
                    let a = tr.node_args(id);
                    if a.len() == self.o.sc.tcx.generics_of(d).count() {
                        self.used(sp, d, a);
                    } else {
                        self.o.item(sp, d, "");
                    }
                }
            }
        }
        hv::walk_qpath(self, q, id)
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        let tcx = self.o.sc.tcx;
        self.o.macros(e.span);
        if let (true, Some(tr)) = (self.o.sc.ours(e.span), self.tr.filter(|t| t.hir_owner == e.hir_id.owner)) {
            if let hir::ExprKind::MethodCall(s, ..) = &e.kind {
                if let Some(d) = tr.type_dependent_def_id(e.hir_id) {
                    self.used(s.ident.span, d, tr.node_args(e.hir_id));
                }
            }
            if self.is_const {
                let auto = tr.expr_adjustments(e).iter().any(|a| matches!(a.kind, ty::adjustment::Adjust::Borrow(ty::adjustment::AutoBorrow::Ref(m)) if m != ty::adjustment::AutoBorrowMutability::Not));
                if auto || matches!(e.kind, hir::ExprKind::AddrOf(hir::BorrowKind::Ref, hir::Mutability::Mut, _)) {
                    self.o.feature(e.span, "&mut in a const context", 83);
                }
            }
            for a in tr.expr_adjustments(e) {
                if let ty::adjustment::Adjust::Pointer(ty::adjustment::PointerCoercion::Unsize) = a.kind {
                    let from = tr.expr_ty(e).builtin_deref(true);
                    if let (Some(ty::TyKind::Dynamic(f, ..)), Some(ty::TyKind::Dynamic(t, ..))) = (from.map(|t| t.kind()), a.target.builtin_deref(true).map(|t| t.kind())) {
                        if t.principal_def_id().is_some() && f.principal_def_id() != t.principal_def_id() {
                            self.o.feature(e.span, "coercion to a supertrait's object", 86);
                        }
                    }
                }
            }
            if let hir::ExprKind::Match(_, arms, hir::MatchSource::Normal) = &e.kind {
                let mut vs = vec![];
                if !arms.is_empty() && arms.iter().all(|a| variant_of(tcx, a.pat, tr).map(|v| vs.extend(v)).is_some()) && !all_variants(tcx, &vs) {
                    self.o.feature(e.span, "match that leaves out empty variants", 82);
                }
            }
        }
        hv::walk_expr(self, e)
    }
    fn visit_local(&mut self, l: &'tcx hir::LetStmt<'tcx>) {
        if let (None, Some(tr)) = (l.els, self.tr.filter(|t| t.hir_owner == l.hir_id.owner)) {
            if variant_of(self.o.sc.tcx, l.pat, tr).is_some_and(|v| !all_variants(self.o.sc.tcx, &v)) {
                self.o.feature(l.span, "pattern that leaves out empty variants", 82);
            }
        }
        hv::walk_local(self, l)
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        self.o.macros(i.span);
        hv::walk_item(self, i)
    }
}

fn wanted() -> Option<(u16, u16)> {
    let v = std::env::var("FMV_MSRV").ok()?;
    let mut p = v.split('.').map(|x| x.parse::<u16>().unwrap_or(0));
    Some((p.next()?, p.next()?))
}

fn out<'tcx>(tcx: TyCtxt<'tcx>, min: (u16, u16)) -> Out<'tcx> {
    let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
    let derived_only = krate.as_str().starts_with("fv_wit");
    let _ = sym::core;
    Out { sc: Scope { tcx, derived_only }, min, seen: HashSet::new(), items: HashSet::new(), n: 0 }
}

/// language features, on the expanded syntax tree
pub fn syntax(tcx: TyCtxt<'_>) {
    let Some(min) = wanted() else { return };
    let mut o = out(tcx, min);
    let k = tcx.resolver_for_lowering().1.borrow();
    let mut v = Syn { o: &mut o, cond: vec![] };
    v.visit_crate(&k);
}

/// library items, on the type-checked program
pub fn items(tcx: TyCtxt<'_>) {
    let Some(min) = wanted() else { return };
    let mut o = out(tcx, min);
    let mut v = Lib { o: &mut o, tr: None, env: ty::ParamEnv::empty(), is_const: false };
    tcx.hir_walk_toplevel_module(&mut v);
    Rec::new("msrvc").n("uses", o.n).n("items", o.items.len() as i64).s("crate", tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()).emit();
}
