//! Translation validation of derived impls in witness crates (C06, C11-C14 and,
//! through them, C15/C16): every impl of the mapping traits the macro generated
//! is compared with what the *type-checked definition* demands.
use crate::builtin::{find_traits, loc_str, short_ty, Bodies};
use crate::eng::*;
use crate::headers::{clause, elaborated, holds, marker_index, nonlife};
use crate::report::Rec;
use crate::spec::{mentions, Expect};
use crate::val::*;
use rustc_middle::ty::{self, BottomUpFolder, GenericArg, GenericArgKind, Ty, TyCtxt, TyKind, TypeFoldable, TypingEnv, Upcast};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Cx<'tcx> {
    pub a: Ty<'tcx>,
    pub b: Ty<'tcx>,
    pub tr: DefId,
    pub marker: DefId,
    pub fallible: bool,
}

pub fn subst<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, a: Ty<'tcx>, b: Ty<'tcx>) -> Ty<'tcx> {
    t.fold_with(&mut BottomUpFolder { tcx, ty_op: |x| if x == a { b } else { x }, lt_op: |x| x, ct_op: |x| x })
}

impl<'tcx> Cx<'tcx> {
    fn index(&self, tcx: TyCtxt<'tcx>, i: usize) -> Ty<'tcx> {
        let c = ty::Const::from_target_usize(tcx, i as u64);
        Ty::new_adt(tcx, tcx.adt_def(self.marker), tcx.mk_args(&[c.into()]))
    }
}

/// steps of mapping a nested ADT: (argument index, type before, type after)
fn steps<'tcx>(tcx: TyCtxt<'tcx>, cx: &Cx<'tcx>, ty: Ty<'tcx>) -> Vec<(usize, Ty<'tcx>, Ty<'tcx>, Ty<'tcx>)> {
    let TyKind::Adt(d, args) = ty.kind() else { return vec![] };
    let mut cur: Vec<GenericArg<'tcx>> = args.to_vec();
    let mut v = vec![];
    let mut idx = 0;
    for (pos, g) in args.iter().enumerate() {
        match g.kind() {
            GenericArgKind::Lifetime(_) => continue,
            GenericArgKind::Type(t) if mentions(t, cx.a) => {
                let before = Ty::new_adt(tcx, *d, tcx.mk_args(&cur));
                cur[pos] = subst(tcx, t, cx.a, cx.b).into();
                let after = Ty::new_adt(tcx, *d, tcx.mk_args(&cur));
                v.push((idx, t, before, after));
            }
            _ => {}
        }
        idx += 1;
    }
    v
}

impl<'tcx> Eng<'tcx> {
    fn one_d(&mut self, st: State<'tcx>, v: Val<'tcx>, ty: Ty<'tcx>, cx: &Cx<'tcx>) -> R<Expect<'tcx>> {
        let mut e = self.action_d(st, v, ty, cx)?;
        if e.len() != 1 {
            und!(self, "{} cases for a value of type {ty:?}", e.len());
        }
        Ok(e.pop().unwrap())
    }

    /// what mapping a nested value of type `ty` amounts to
    pub fn action_d(&mut self, st: State<'tcx>, v: Val<'tcx>, ty: Ty<'tcx>, cx: &Cx<'tcx>) -> R<Vec<Expect<'tcx>>> {
        let tcx = self.tcx;
        if ty == cx.a {
            let arg = self.canon(&v);
            let result = self.mk_sym(Rc::new(Term::Ret(Rc::new(arg.clone()))), cx.b);
            return Ok(vec![Expect { st, events: vec![Chunk::One(Ev::Call(arg, Oc::Ok))], result }]);
        }
        if !mentions(ty, cx.a) {
            return Ok(vec![Expect { st, events: vec![], result: v }]);
        }
        let fmap = |s: &mut Self, i: usize, before: Ty<'tcx>, after: Ty<'tcx>, v: &Val<'tcx>| {
            let arg = s.canon(v);
            let key = FKey { ty: s.norm_ty(before), marker: cx.index(tcx, i), fallible: cx.fallible, arg };
            let r = s.mk_sym(Rc::new(Term::FRet(Rc::new(key.clone()))), after);
            (Chunk::One(Ev::FMap(key, Oc::Ok)), r)
        };
        match ty.kind() {
            TyKind::Array(..) => {
                let (e, result) = fmap(self, 0, ty, subst(tcx, ty, cx.a, cx.b), &v);
                Ok(vec![Expect { st, events: vec![e], result }])
            }
            TyKind::Tuple(ts) => {
                let mut v = v;
                self.expand(&mut v, &[]);
                let Val::Adt(_, _, fs) = v else { und!(self, "tuple value {v:?}") };
                let mut st = st;
                let mut events = vec![];
                let mut out = vec![];
                for (t, x) in ts.iter().zip(fs) {
                    let e = self.one_d(st, x, t, cx)?;
                    st = e.st;
                    events.extend(e.events);
                    out.push(e.result);
                }
                Ok(vec![Expect { st, events, result: Val::Adt(subst(tcx, ty, cx.a, cx.b), 0, out) }])
            }
            TyKind::Adt(d, _) if d.is_phantom_data() => {
                Ok(vec![Expect { st, events: vec![], result: Val::Adt(subst(tcx, ty, cx.a, cx.b), 0, vec![]) }])
            }
            TyKind::Adt(..) => {
                let mut cur = v;
                let mut events = vec![];
                for (i, _, before, after) in steps(tcx, cx, ty) {
                    let (e, r) = fmap(self, i, before, after, &cur);
                    events.push(e);
                    cur = r;
                }
                Ok(vec![Expect { st, events, result: cur }])
            }
            _ => und!(self, "type {ty:?} cannot be mapped at {:?}", cx.a),
        }
    }

    /// the whole derived mapping
    fn action_top(&mut self, st: State<'tcx>, v: Val<'tcx>, ty: Ty<'tcx>, cx: &Cx<'tcx>) -> R<Vec<Expect<'tcx>>> {
        let tcx = self.tcx;
        let out = subst(tcx, ty, cx.a, cx.b);
        let mut res = vec![];
        for (st, v) in self.split_enum(st, v)? {
            let mut v = v;
            let facts = st.facts.clone();
            self.expand(&mut v, &facts);
            let Val::Adt(_, k, fs) = v else { und!(self, "value {v:?}") };
            let mut st = st;
            let mut events = vec![];
            let mut rs = vec![];
            for (i, x) in fs.into_iter().enumerate() {
                let Some(ft) = self.field_ty(ty, k, i as u32) else { und!(self, "field {i}") };
                let e = self.one_d(st, x, ft, cx)?;
                st = e.st;
                events.extend(e.events);
                rs.push(e.result);
            }
            res.push(Expect { st, events, result: Val::Adt(out, k, rs) });
        }
        Ok(res)
    }

    /// closures captured by reference hold the value they referred to; put it
    /// back behind a reference
    fn reref(&mut self, slots: &mut Vec<Val<'tcx>>, v: Val<'tcx>) -> Val<'tcx> {
        match v {
            Val::Adt(t, k, fs) => {
                let tys: Vec<Option<Ty<'tcx>>> = match t.kind() {
                    TyKind::Closure(_, a) => a.as_closure().upvar_tys().iter().map(Some).collect(),
                    _ => vec![None; fs.len()],
                };
                let fs = fs
                    .into_iter()
                    .zip(tys)
                    .map(|(f, ty)| {
                        let isref = matches!(f, Val::Ref(_));
                        let f = self.reref(slots, f);
                        let n = ty.map_or(0, |mut t| {
                            let mut n = 0;
                            while let TyKind::Ref(_, x, _) = t.kind() {
                                t = *x;
                                n += 1;
                            }
                            n
                        });
                        if isref || n == 0 {
                            return f;
                        }
                        slots.push(f);
                        Val::Ref(Loc { frame: 0, local: slots.len() as u32 - 1, proj: vec![] })
                    })
                    .collect();
                Val::Adt(t, k, fs)
            }
            v => v,
        }
    }
}

struct Info {
    map: (String, String, Span),
    sites: i64,
    exits: i64,
    steps: u64,
}

fn empty_state<'tcx>() -> State<'tcx> {
    State { frames: vec![], trace: vec![], drops: vec![], facts: vec![], cons: Default::default(), eqs: vec![] }
}

fn check_outs<'tcx>(eng: &mut Eng<'tcx>, outs: &Outs<'tcx>, inp: &Val<'tcx>, ty: Ty<'tcx>, cx: &Cx<'tcx>, top: bool) -> Result<i64, String> {
    let mut n = 0;
    for (o, s) in outs {
        match o {
            Out::Ret(v) => {
                n += 1;
                let st = State { frames: vec![], trace: vec![], drops: vec![], ..s.clone() };
                let inp = s.fix(inp);
                let es = if top { eng.action_top(st, inp, ty, cx) } else { eng.action_d(st, inp, ty, cx) };
                let es = es.map_err(|p| format!("specification: {}", p.msg))?;
                for x in es {
                    eng.check_exit(v, s, &x, cx.fallible)?;
                }
            }
            Out::Panic(m, _) => return Err(format!("may panic: {m}")),
            Out::Unwind => {}
        }
    }
    Ok(n)
}

/// returns (status, message, where)
fn body<'tcx>(tcx: TyCtxt<'tcx>, bodies: &Bodies<'tcx>, m: DefId, slf: Ty<'tcx>, cx: &Cx<'tcx>, fm: (DefId, DefId)) -> Info {
    let span = tcx.def_span(m);
    let mut info = Info { map: ("ok".into(), String::new(), span), sites: 0, exits: 0, steps: 0 };
    let Some(b) = m.as_local().and_then(|l| bodies.get(&l).copied()) else {
        info.map = ("undecided".into(), "no body".into(), span);
        return info;
    };
    let env = TypingEnv::post_analysis(tcx, m);
    let mode = Mode { unwind: false, fallible: cx.fallible, derive: true };
    let mut eng = Eng::new(tcx, env, mode, bodies.clone(), Some(fm));
    eng.span = span;
    let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, m));
    let sig = tcx.fn_sig(m).instantiate_identity().skip_norm_wip().skip_binder();
    let argv: Vec<Val<'tcx>> = sig
        .inputs()
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let t = eng.norm_ty(tcx.erase_and_anonymize_regions(*t));
            eng.mk_sym(Rc::new(Term::Root(i as u32)), t)
        })
        .collect();
    let input = argv[0].clone();
    let fail = |p: &Problem| (if p.ub { "violation" } else { "undecided" }.to_string(), p.msg.clone(), p.span);
    let outs = match eng.run_body(empty_state(), b, args, argv, m, true) {
        Ok(o) => o,
        Err(p) => {
            info.map = fail(&p);
            return info;
        }
    };
    let cases = match slf.kind() {
        TyKind::Adt(d, _) => d.variants().len() as i64,
        _ => 1,
    };
    match check_outs(&mut eng, &outs, &input, slf, cx, true) {
        Err(e) => {
            info.map = ("violation".into(), e, span);
            return info;
        }
        Ok(0) if cases > 0 => {
            info.map = ("violation".into(), "no path returns".into(), span);
            return info;
        }
        Ok(n) => info.exits = n,
    }
    // the closures handed to nested mappings
    let mut done: Vec<FmapSite<'tcx>> = vec![];
    let mut next = 0;
    let mut root = 1000;
    while next < eng.fmaps.len() {
        let site = eng.fmaps[next].clone();
        next += 1;
        if done.iter().any(|d| d.closure == site.closure && d.a == site.a && d.b == site.b && d.key.ty == site.key.ty && d.key.marker == site.key.marker) {
            continue;
        }
        done.push(site.clone());
        let at = format!("the closure for {} at {}", short_ty(site.key.ty), short_ty(site.key.marker));
        let mut bad = |m: String, s: &str| info.map = (s.into(), format!("{at}: {m}"), site.span);
        // which part of the nested type is mapped
        let arg = match (site.key.ty.kind(), marker_index(tcx, site.key.marker)) {
            (TyKind::Adt(_, a), Some(i)) => nonlife(a).get(i as usize).and_then(|g| g.as_type()),
            (TyKind::Array(e, _), Some(0)) => Some(*e),
            _ => None,
        };
        let Some(arg) = arg else {
            bad("is mapped at an unknown position".into(), "undecided");
            return info;
        };
        if eng.norm_ty(arg) != site.a {
            bad(format!("maps {} instead of {}", short_ty(site.a), short_ty(arg)), "violation");
            return info;
        }
        if eng.norm_ty(subst(tcx, arg, cx.a, cx.b)) != site.b {
            bad(format!("maps {} to {}", short_ty(arg), short_ty(site.b)), "violation");
            return info;
        }
        let mut st = empty_state();
        let mut slots = vec![];
        let clos = eng.reref(&mut slots, site.closure.clone());
        st.frames.push(slots);
        let dty = match site.err {
            Some(e) => match sig.output().kind() {
                TyKind::Adt(rd, _) => Ty::new_adt(tcx, *rd, tcx.mk_args(&[site.b.into(), e.into()])),
                _ => site.b,
            },
            None => site.b,
        };
        root += 1;
        let x = eng.mk_sym(Rc::new(Term::Root(root)), site.a);
        match eng.call_value(st, clos, vec![x.clone()], dty) {
            Err(p) => {
                let (s, m, sp) = fail(&p);
                info.map = (s, format!("{at}: {m}"), sp);
                return info;
            }
            Ok(outs) => match check_outs(&mut eng, &outs, &x, site.a, cx, false) {
                Err(e) => {
                    bad(e, "violation");
                    return info;
                }
                Ok(0) => {
                    bad("no path returns".into(), "violation");
                    return info;
                }
                Ok(n) => info.exits += n,
            },
        }
    }
    info.sites = done.len() as i64;
    info.steps = eng.steps;
    info
}

/// what the derived impl may assume: the bounds of the definition for source
/// and target, mappability of the nested types, sized fields
fn allowed<'tcx>(tcx: TyCtxt<'tcx>, slf: Ty<'tcx>, out: Ty<'tcx>, cx: &Cx<'tcx>) -> Vec<ty::Clause<'tcx>> {
    let sized = tcx.lang_items().sized_trait().unwrap();
    let mut v = vec![clause(tcx, sized, &[cx.a.into()]), clause(tcx, sized, &[cx.b.into()])];
    for t in [slf, out] {
        let TyKind::Adt(d, args) = t.kind() else { continue };
        for (c, _) in tcx.clauses_of(d.did()).instantiate(tcx, args).into_iter() {
            v.push(c.skip_norm_wip());
        }
        for f in d.all_fields() {
            sized_parts(tcx, f.ty(tcx, args).skip_norm_wip(), sized, &mut v);
        }
    }
    if let TyKind::Adt(d, args) = slf.kind() {
        for f in d.all_fields() {
            needs(tcx, f.ty(tcx, args).skip_norm_wip(), cx, &mut v);
        }
    }
    v
}

fn sized_parts<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, sized: DefId, v: &mut Vec<ty::Clause<'tcx>>) {
    v.push(clause(tcx, sized, &[t.into()]));
    match t.kind() {
        TyKind::Tuple(ts) => ts.iter().for_each(|t| sized_parts(tcx, t, sized, v)),
        TyKind::Array(t, _) => sized_parts(tcx, *t, sized, v),
        TyKind::Adt(_, a) => {
            // an argument that is mapped is taken apart like a field
            for t in a.types() {
                if let TyKind::Tuple(_) | TyKind::Array(..) | TyKind::Adt(..) = t.kind() {
                    sized_parts(tcx, t, sized, v);
                }
            }
        }
        _ => {}
    }
}

/// mapping predicates of a nested type
fn needs<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, cx: &Cx<'tcx>, v: &mut Vec<ty::Clause<'tcx>>) {
    if t == cx.a || !mentions(t, cx.a) {
        return;
    }
    match t.kind() {
        TyKind::Tuple(ts) => ts.iter().for_each(|t| needs(tcx, t, cx, v)),
        TyKind::Array(t, _) => needs(tcx, *t, cx, v),
        TyKind::Adt(..) => {
            for (i, arg, before, after) in steps(tcx, cx, t) {
                let args: [GenericArg<'tcx>; 4] = [before.into(), arg.into(), subst(tcx, arg, cx.a, cx.b).into(), cx.index(tcx, i).into()];
                v.push(clause(tcx, cx.tr, &args));
                if let Some(o) = tcx.associated_items(cx.tr).in_definition_order().find(|i| !i.is_fn()) {
                    let p = ty::ProjectionClause {
                        projection_term: ty::AliasTerm::new_from_args(tcx, ty::AliasTermKind::ProjectionTy { def_id: o.def_id.into() }, tcx.mk_args(&args)),
                        term: after.into(),
                    };
                    v.push(p.upcast(tcx));
                }
                needs(tcx, arg, cx, v);
            }
        }
        _ => {}
    }
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, bodies: Bodies<'tcx>) {
    let Some((fm, tfm)) = find_traits(tcx) else {
        Rec::new("fatal").s("msg", "mapping traits not found").emit();
        return;
    };
    for (tr, fallible) in [(fm, false), (tfm, true)] {
        let impls = tcx.all_local_trait_impls(()).get(&tr).cloned().unwrap_or_default();
        for i in impls {
            one(tcx, &bodies, i.to_def_id(), fallible, (fm, tfm));
        }
    }
    let mut crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    crates.sort();
    Rec::new("dcrate").l("crates", crates.iter()).emit();
}

fn one<'tcx>(tcx: TyCtxt<'tcx>, bodies: &Bodies<'tcx>, imp: DefId, fallible: bool, fm: (DefId, DefId)) {
    let raw = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
    let tref = tcx.erase_and_anonymize_regions(raw);
    let (slf, a, b, mk) = (tref.args.type_at(0), tref.args.type_at(1), tref.args.type_at(2), tref.args.type_at(3));
    let mut bad: Vec<String> = vec![];
    let module = tcx.def_path_str(tcx.parent_module_from_def_id(imp.expect_local()).to_def_id());
    let rec = Rec::new("dimpl")
        .s("module", module)
        .s("trait", tcx.item_name(tref.def_id).as_str())
        .s("header", raw.to_string())
        .s("at", loc_str(tcx, tcx.def_span(imp)));
    let isparam = |t: Ty<'tcx>| matches!(t.kind(), TyKind::Param(_));
    if !isparam(a) || !isparam(b) || a == b {
        bad.push(format!("source {a} and target {b} are not two different type parameters"));
    }
    let mut out = None;
    let mut rawout = None;
    for it in tcx.associated_items(imp).in_definition_order() {
        if !it.is_fn() {
            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
            rawout = Some(t);
            out = Some(tcx.erase_and_anonymize_regions(t));
        }
    }
    let (TyKind::Adt(d, args), Some(out), Some(rawout)) = (slf.kind(), out, rawout) else {
        bad.push(format!("{slf} is not a struct or enum"));
        rec.s("adt", slf.to_string()).n("index", -1).l("bad", bad.iter()).emit();
        return;
    };
    let rec = rec.s("adt", tcx.item_name(d.did()).as_str());
    let idx = marker_index(tcx, mk).map_or(-1, |i| i as i64);
    if idx < 0 {
        bad.push(format!("marker {mk} is not one specific index"));
    }
    let nl = nonlife(args);
    // the definition's own parameter at that position
    let own = nonlife(ty::GenericArgs::identity_for_item(tcx, d.did()));
    match nl.get(idx as usize) {
        Some(g) if *g == GenericArg::from(a) => {}
        g => bad.push(format!("parameter {idx} of {slf} is {g:?}, not the source type {a}")),
    }
    // regions included: the output differs from the source in nothing but the mapped parameter
    let want = subst(tcx, raw.self_ty(), raw.args.type_at(1), raw.args.type_at(2));
    if want != rawout {
        bad.push(format!("the output is {rawout}, not {want}"));
    }
    let TyKind::Adt(_, rawargs) = raw.self_ty().kind() else { unreachable!() };
    for (i, g) in rawargs.iter().enumerate() {
        let param = match g.kind() {
            GenericArgKind::Type(t) => isparam(t),
            GenericArgKind::Const(c) => matches!(c.kind(), ty::ConstKind::Param(_)),
            GenericArgKind::Lifetime(r) => matches!(r.kind(), ty::RegionKind::ReEarlyParam(_)),
        };
        if !param || rawargs[..i].contains(&g) || g == GenericArg::from(b) {
            bad.push(format!("the impl fixes argument {i} to {g}"));
        }
    }
    let name = match own.get(idx as usize) {
        Some(g) => g.to_string(),
        None => String::new(),
    };
    let kinds: Vec<&str> = own
        .iter()
        .map(|g| match g.kind() {
            GenericArgKind::Type(_) => "type",
            GenericArgKind::Const(_) => "const",
            _ => "lifetime",
        })
        .collect();
    let rec = rec.n("index", idx).s("param", name).l("kinds", kinds.iter()).l("bad", bad.iter()).s("out", out.to_string());
    if !bad.is_empty() {
        rec.s("status", "violation").s("msg", bad.join("; ")).l("extra", Vec::<String>::new()).l("over", Vec::<String>::new()).emit();
        return;
    }
    let TyKind::Adt(md, _) = mk.kind() else { unreachable!() };
    let cx = Cx { a, b, tr: tref.def_id, marker: md.did(), fallible };
    // predicates, regions kept
    let rcx = Cx { a: raw.args.type_at(1), b: raw.args.type_at(2), ..cx };
    let base = allowed(tcx, raw.self_ty(), rawout, &rcx);
    let env = elaborated(tcx, base.clone());
    let outl: Vec<ty::Clause<'tcx>> = rustc_infer::traits::util::elaborate(tcx, base).collect();
    let mut extra = vec![];
    let mut npred = 0;
    for (c, _) in tcx.clauses_of(imp).instantiate_identity(tcx).into_iter() {
        let c = c.skip_norm_wip();
        npred += 1;
        let ok = match c.kind().skip_binder() {
            ty::ClauseKind::TypeOutlives(..) | ty::ClauseKind::RegionOutlives(..) => outl.contains(&c),
            ty::ClauseKind::ConstArgHasType(..) => true,
            _ => outl.contains(&c) || holds(tcx, env, c),
        };
        if !ok {
            extra.push(format!("{c}"));
        }
    }
    let mut over = vec![];
    let mut info = None;
    for it in tcx.associated_items(imp).in_definition_order() {
        if !it.is_fn() {
            continue;
        }
        let i = body(tcx, bodies, it.def_id, slf, &cx, fm);
        if it.name().as_str().ends_with("_over") {
            over.push(format!("{}: {} {}", it.name(), i.map.0, i.map.1));
        } else {
            info = Some(i);
        }
    }
    let Some(info) = info else {
        rec.s("status", "violation").s("msg", "no mapping method").l("extra", extra.iter()).l("over", over.iter()).emit();
        return;
    };
    rec.s("status", &info.map.0)
        .s("msg", &info.map.1)
        .s("where", loc_str(tcx, info.map.2))
        .n("exits", info.exits)
        .n("sites", info.sites)
        .n("steps", info.steps as i64)
        .n("predicates", npred)
        .l("extra", extra.iter())
        .l("over", over.iter())
        .emit();
}
