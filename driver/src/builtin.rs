//! Analysis of the crate's own implementations (C01, C02, C03, C06, C09).
use crate::eng::*;
use crate::report::Rec;
use crate::val::*;
use rustc_middle::mir::Body;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::HashMap;
use std::rc::Rc;

pub fn loc_str(tcx: TyCtxt<'_>, s: Span) -> String {
    let s = s.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

pub fn find_traits(tcx: TyCtxt<'_>) -> Option<(DefId, DefId)> {
    let mut fm = None;
    let mut tfm = None;
    for t in tcx.all_traits_including_private() {
        if tcx.crate_name(t.krate).as_str() == "funcmap" && tcx.def_path(t).data.len() == 1 {
            match tcx.item_name(t).as_str() {
                "FuncMap" => fm = Some(t),
                "TryFuncMap" => tfm = Some(t),
                _ => {}
            }
        }
    }
    Some((fm?, tfm?))
}

pub fn short_ty(t: Ty<'_>) -> String {
    format!("{t}")
}

pub type Bodies<'tcx> = Rc<HashMap<LocalDefId, &'tcx Body<'tcx>>>;

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, bodies: Bodies<'tcx>) {
    let Some((fm, tfm)) = find_traits(tcx) else {
        Rec::new("fatal").s("msg", "mapping traits not found").emit();
        return;
    };
    for (tr, fallible) in [(fm, false), (tfm, true)] {
        provided(tcx, &bodies, tr, fallible, (fm, tfm));
        let impls = tcx.all_local_trait_impls(()).get(&tr).cloned().unwrap_or_default();
        for i in impls {
            one_impl(tcx, &bodies, i.to_def_id(), fallible, (fm, tfm));
        }
    }
}

struct Run<'tcx> {
    eng: Eng<'tcx>,
    outs: R<Outs<'tcx>>,
    input: Val<'tcx>,
}

fn exec<'tcx>(tcx: TyCtxt<'tcx>, bodies: &Bodies<'tcx>, m: DefId, mode: Mode, fm: (DefId, DefId)) -> Option<Run<'tcx>> {
    let body = bodies.get(&m.as_local()?).copied()?;
    let env = TypingEnv::post_analysis(tcx, m);
    let mut eng = Eng::new(tcx, env, mode, bodies.clone(), Some(fm));
    eng.span = tcx.def_span(m);
    let args = ty::GenericArgs::identity_for_item(tcx, m);
    let args = tcx.erase_and_anonymize_regions(args);
    let sig = tcx.fn_sig(m).instantiate_identity().skip_norm_wip().skip_binder();
    let mut argv = vec![];
    for (i, t) in sig.inputs().iter().enumerate() {
        let t = eng.norm_ty(tcx.erase_and_anonymize_regions(*t));
        argv.push(eng.mk_sym(Rc::new(Term::Root(i as u32)), t));
    }
    let input = argv[0].clone();
    let st = State { frames: vec![], trace: vec![], drops: vec![], facts: vec![], cons: Default::default(), eqs: vec![] };
    let outs = eng.run_body(st, body, args, argv, m, true);
    Some(Run { eng, outs, input })
}

fn emit<'tcx>(eng: &Eng<'tcx>, aspect: &str, name: &str, span: Span, status: &str, msg: &str, at: Span, exits: usize) {
    Rec::new("fn")
        .s("aspect", aspect)
        .s("fn", name)
        .s("def", loc_str(eng.tcx, span))
        .s("status", status)
        .s("msg", msg)
        .s("at", loc_str(eng.tcx, at))
        .n("exits", exits as i64)
        .n("steps", eng.steps as i64)
        .l("inlined", eng.inlined.iter())
        .l("prims", eng.prims.iter())
        .l("loops", eng.loops.iter().take(6))
        .emit();
}

fn report<'tcx>(aspects: &[&str], name: &str, span: Span, run: &mut Run<'tcx>, mut check: impl FnMut(&mut Eng<'tcx>, &Val<'tcx>, &State<'tcx>) -> Result<(), String>) {
    let outs = match &run.outs {
        Err(p) => {
            let s = if p.ub { "violation" } else { "undecided" };
            for a in aspects {
                emit(&run.eng, a, name, span, s, &p.msg, p.span, 0);
            }
            return;
        }
        Ok(o) => o.clone(),
    };
    let mut n = 0;
    let mut bad: Option<String> = None;
    for (o, s) in &outs {
        match o {
            Out::Ret(v) => {
                n += 1;
                if let Err(m) = check(&mut run.eng, v, s) {
                    bad.get_or_insert(m);
                }
            }
            _ => {}
        }
    }
    if n == 0 && bad.is_none() {
        bad = Some("no path returns".into());
    }
    let status = if bad.is_some() { "violation" } else { "ok" };
    for a in aspects {
        emit(&run.eng, a, name, span, status, bad.as_deref().unwrap_or(""), span, n);
    }
}

fn panics<'tcx>(name: &str, span: Span, run: &Run<'tcx>, bodies: &Bodies<'tcx>, m: DefId) {
    match &run.outs {
        // what the interpreter cannot follow is decided by reachability alone
        Err(p) if !p.ub => match crate::panics::scan(run.eng.tcx, bodies, m) {
            Some((w, s)) => emit(&run.eng, "panic", name, span, "undecided", &format!("{w} ({})", p.msg), s, 0),
            None => emit(&run.eng, "panic", name, span, "ok", &format!("by reachability: {}", p.msg), p.span, 0),
        },
        Err(p) => emit(&run.eng, "panic", name, span, if p.ub { "violation" } else { "undecided" }, &p.msg, p.span, 0),
        Ok(outs) => {
            if let Some((m, s)) = outs.iter().find_map(|(o, _)| if let Out::Panic(m, s) = o { Some((m, s)) } else { None }) {
                emit(&run.eng, "panic", name, span, "violation", &format!("may panic: {m}"), *s, outs.len());
            } else if let Some(s) = run.eng.nonterm {
                emit(&run.eng, "panic", name, span, "violation", "a loop is not bounded by the size of the input", s, outs.len());
            } else {
                emit(&run.eng, "panic", name, span, "ok", "", span, outs.len());
            }
        }
    }
}

fn provided<'tcx>(tcx: TyCtxt<'tcx>, bodies: &Bodies<'tcx>, tr: DefId, fallible: bool, fm: (DefId, DefId)) {
    for it in tcx.associated_items(tr).in_definition_order() {
        if !it.is_fn() || !it.defaultness(tcx).has_value() {
            continue;
        }
        let m = it.def_id;
        let name = format!("{}::{}", tcx.item_name(tr), tcx.item_name(m));
        let span = tcx.def_span(m);
        let Some(mut r) = exec(tcx, bodies, m, Mode { unwind: false, fallible, derive: false }, fm) else {
            Rec::new("fatal").s("msg", format!("no body for {name}")).emit();
            continue;
        };
        let targs = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, tr));
        let input = r.input.clone();
        let sites = r.eng.fmaps.clone();
        report(&["over"], &name, span, &mut r, |e, v, s| {
            if sites.iter().any(|x| {
                !matches!(&x.closure, Val::Sym(t, _) if **t == Term::Root(1)) || x.a != targs.type_at(1) || x.b != targs.type_at(2)
            }) {
                return Err("the closure is not passed on unchanged".into());
            }
            let key = FKey { ty: targs.type_at(0), marker: targs.type_at(3), fallible, arg: e.canon(&input) };
            let exp = Expect2 { key };
            exp.check(e, v, s, fallible)
        });
        panics(&name, span, &r, bodies, m);
    }
}

struct Expect2<'tcx> {
    key: FKey<'tcx>,
}
impl<'tcx> Expect2<'tcx> {
    fn check(&self, e: &mut Eng<'tcx>, v: &Val<'tcx>, s: &State<'tcx>, fallible: bool) -> Result<(), String> {
        let k = Rc::new(self.key.clone());
        let tr = normalise(&s.trace);
        let (evs, want): (Vec<Oc>, Vec<Term<'tcx>>) = if fallible {
            (vec![Oc::Ok, Oc::Err], vec![Term::FRet(k.clone()), Term::FErr(k.clone())])
        } else {
            (vec![Oc::Ok], vec![Term::FRet(k.clone())])
        };
        for (o, w) in evs.iter().zip(&want) {
            if tr == vec![Chunk::One(Ev::FMap(self.key.clone(), *o))] {
                let got = if fallible {
                    match v {
                        Val::Adt(rt, k, fs) if (*k == e.variant_named(*rt, "Ok")) == (*o == Oc::Ok) => fs[0].clone(),
                        v => v.clone(),
                    }
                } else {
                    v.clone()
                };
                return match &got {
                    Val::Sym(t, _) if **t == *w => Ok(()),
                    v => Err(format!("the result is {v:?}, not that of the plain method")),
                };
            }
        }
        Err(format!("does not delegate to the plain method exactly once: {tr:?}"))
    }
}

fn one_impl<'tcx>(tcx: TyCtxt<'tcx>, bodies: &Bodies<'tcx>, imp: DefId, fallible: bool, fm: (DefId, DefId)) {
    let tref = tcx.erase_and_anonymize_regions(tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip());
    let slf = tref.args.type_at(0);
    let (a, b) = (tref.args.type_at(1), tref.args.type_at(2));
    let head = format!("{}<{}> for {}", tcx.item_name(tref.def_id), tref.args.iter().skip(1).map(|x| x.to_string()).collect::<Vec<_>>().join(", "), slf);
    let mut out_ty = None;
    for it in tcx.associated_items(imp).in_definition_order() {
        if !it.is_fn() && it.name().as_str() == "Output" {
            out_ty = Some(tcx.erase_and_anonymize_regions(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()));
        }
    }
    let mut plain = false;
    for it in tcx.associated_items(imp).in_definition_order() {
        if !it.is_fn() {
            continue;
        }
        let m = it.def_id;
        let n = it.name();
        let n = n.as_str();
        let over = n.ends_with("_over");
        plain |= !over;
        let name = format!("<{head}>::{n}");
        let span = tcx.def_span(m);
        let array = matches!(slf.kind(), TyKind::Array(..));
        let mode = Mode { unwind: false, fallible, derive: false };
        let Some(mut r) = exec(tcx, bodies, m, mode, fm) else {
            Rec::new("fatal").s("msg", format!("no body for {name}")).emit();
            continue;
        };
        let out_ty = out_ty.unwrap_or(slf);
        let input = r.input.clone();
        let aspect = match (over, fallible) {
            (true, _) => "over",
            (_, false) => "map",
            (_, true) => "try",
        };
        let out_ty = r.eng.norm_ty(out_ty);
        report(&[aspect], &name, span, &mut r, |e, v, s| {
            let st = State { frames: vec![], trace: vec![], drops: vec![], ..s.clone() };
            let inp = s.fix(&input);
            let es = e.action(st, inp, slf, out_ty, a, b).map_err(|p| format!("specification: {}", p.msg))?;
            for x in es {
                e.check_exit(v, s, &x, fallible)?;
            }
            Ok(())
        });
        panics(&name, span, &r, bodies, m);
        if array {
            let Some(mut r) = exec(tcx, bodies, m, Mode { unwind: true, ..mode }, fm) else { continue };
            let outs = match &r.outs {
                Err(p) => {
                    emit(&r.eng, "mem", &name, span, if p.ub { "violation" } else { "undecided" }, &p.msg, p.span, 0);
                    continue;
                }
                Ok(o) => o.clone(),
            };
            let mut bad = None;
            let mut unw = 0;
            for (o, s) in &outs {
                let v = match o {
                    Out::Ret(v) => Some(v),
                    Out::Unwind => {
                        unw += 1;
                        None
                    }
                    Out::Panic(m, _) => {
                        bad.get_or_insert(format!("may abort: {m}"));
                        continue;
                    }
                };
                let inp = s.fix(&input);
                if let Err(m) = r.eng.check_memory(v, s, &inp) {
                    let what = match o {
                        Out::Unwind => "when the closure panics",
                        _ => "when the mapping returns",
                    };
                    bad.get_or_insert(format!("{what}: {m}"));
                }
                // a zero-length array succeeds without calling the closure
            }
            if unw == 0 {
                bad.get_or_insert("no unwinding path was analysed".into());
            }
            emit(&r.eng, "mem", &name, span, if bad.is_some() { "violation" } else { "ok" }, bad.as_deref().unwrap_or(""), span, outs.len());
        }
    }
    if !plain {
        Rec::new("fatal").s("msg", format!("no mapping method in impl {head}")).emit();
    }
}
