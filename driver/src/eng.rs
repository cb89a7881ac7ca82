//! Abstract interpreter over MIR: sequence domain, difference bounds, event
//! traces; loops are closed by widening to an inductive state.
use crate::lin::*;
use crate::val::*;
use crate::widen::*;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_attr_ir::lang_items::LangItem;
use rustc_middle::mir::{self, BasicBlock, BinOp, Body, Operand, Place, Rvalue, StatementKind, TerminatorKind, UnOp, UnwindAction};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypeFoldable, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Problem {
    pub ub: bool,
    pub msg: String,
    pub span: Span,
}
pub type R<T> = Result<T, Problem>;

#[derive(Clone, Debug)]
pub enum Out<'tcx> {
    Ret(Val<'tcx>),
    Unwind,
    Panic(String, Span),
}
pub type Outs<'tcx> = Vec<(Out<'tcx>, State<'tcx>)>;

#[derive(Clone, Debug)]
pub enum Done<'tcx> {
    Ret(Val<'tcx>, State<'tcx>),
    Unwind(State<'tcx>),
    Panic(String, Span, State<'tcx>),
    Back(BasicBlock, State<'tcx>),
}

#[derive(Clone, Copy)]
pub struct Mode {
    pub unwind: bool,
    pub fallible: bool,
    /// nested mapping calls are events instead of being looked into
    pub derive: bool,
}

pub struct Fx<'tcx> {
    pub body: &'tcx Body<'tcx>,
    pub args: GenericArgsRef<'tcx>,
    pub heads: BTreeSet<BasicBlock>,
    pub fi: u32,
    pub local: bool,
    pub pre: bool,
    pub def: DefId,
}

pub struct Eng<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub mode: Mode,
    pub bodies: Rc<HashMap<LocalDefId, &'tcx Body<'tcx>>>,
    pub nsym: Sym,
    pub lens: HashMap<String, Sym>,
    pub span: Span,
    pub depth: u32,
    /// how many phases deep the current loop is
    pub phase: u32,
    pub debug: bool,
    pub steps: u64,
    pub nonterm: Option<Span>,
    pub inlined: BTreeSet<String>,
    pub prims: BTreeSet<String>,
    pub loops: Vec<String>,
    pub trace: bool,
    pub funcmap: Option<(DefId, DefId)>,
    /// nested mapping calls whose closure still has to be verified
    pub fmaps: Vec<FmapSite<'tcx>>,
    pub deferred: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct FmapSite<'tcx> {
    pub key: FKey<'tcx>,
    pub a: Ty<'tcx>,
    pub b: Ty<'tcx>,
    pub closure: Val<'tcx>,
    /// error type of a fallible mapping
    pub err: Option<Ty<'tcx>>,
    pub span: Span,
}

macro_rules! und {
    ($s:expr, $($a:tt)*) => { return Err(Problem { ub: false, msg: format!($($a)*), span: $s.span }) };
}
macro_rules! ub {
    ($s:expr, $($a:tt)*) => { return Err(Problem { ub: true, msg: format!($($a)*), span: $s.span }) };
}
pub(crate) use {ub, und};

pub fn field_idx(i: u32) -> FieldIdx {
    FieldIdx::from_u32(i)
}

impl<'tcx> Eng<'tcx> {
    pub fn new(
        tcx: TyCtxt<'tcx>,
        env: TypingEnv<'tcx>,
        mode: Mode,
        bodies: Rc<HashMap<LocalDefId, &'tcx Body<'tcx>>>,
        funcmap: Option<(DefId, DefId)>,
    ) -> Self {
        Eng {
            tcx,
            env,
            mode,
            bodies,
            nsym: 1,
            lens: HashMap::new(),
            span: rustc_span::DUMMY_SP,
            depth: 0,
            phase: 0,
            steps: 0,
            nonterm: None,
            debug: std::env::var_os("FV_LOOPS").is_some(),
            inlined: BTreeSet::new(),
            prims: BTreeSet::new(),
            loops: vec![],
            trace: std::env::var("FMV_TRACE").is_ok(),
            funcmap,
            fmaps: vec![],
            deferred: vec![],
        }
    }

    pub fn fresh(&mut self) -> Sym {
        self.nsym += 1;
        self.nsym
    }

    // ---------------------------------------------------------------- types

    pub fn path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    pub fn ty_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(d, _) => self.path(d.did()),
            TyKind::Slice(_) => "slice".into(),
            TyKind::Array(..) => "array".into(),
            TyKind::RawPtr(..) => "ptr".into(),
            TyKind::Ref(..) => "ref".into(),
            _ => format!("{t:?}"),
        }
    }
    pub fn fname(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if let Some(t) = tcx.trait_of_assoc(d) {
            return format!("{}::{}", self.path(t), tcx.item_name(d));
        }
        if let Some(i) = tcx.impl_of_assoc(d) {
            let n = tcx.item_name(d);
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            return match tcx.impl_opt_trait_ref(i) {
                Some(t) => format!("<{} as {}>::{}", self.ty_name(st), self.path(t.skip_binder().def_id), n),
                None => format!("{}::{}", self.ty_name(st), n),
            };
        }
        self.path(d)
    }

    pub fn norm_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    pub fn mono<T: TypeFoldable<TyCtxt<'tcx>> + Clone + std::fmt::Debug>(&self, args: GenericArgsRef<'tcx>, t: T) -> T {
        let i = EarlyBinder::bind(self.tcx, t.clone()).instantiate(self.tcx, args);
        match self.tcx.try_normalize_erasing_regions(self.env, i) {
            Ok(x) => x,
            Err(_) => EarlyBinder::bind(self.tcx, t).instantiate(self.tcx, args).skip_norm_wip(),
        }
    }
    pub fn peel(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let mut t = t;
        while self.transparent(t) {
            let TyKind::Adt(_, a) = t.kind() else { unreachable!() };
            t = a.type_at(0);
        }
        t
    }
    pub fn transparent(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            TyKind::Adt(d, _) => {
                d.is_manually_drop()
                    || self.tcx.is_lang_item(d.did(), LangItem::MaybeUninit)
                    || self.path(d.did()).ends_with("::MaybeDangling")
            }
            _ => false,
        }
    }
    pub fn is_box(&self, t: Ty<'tcx>) -> bool {
        t.is_box()
    }
    pub fn opaque_item(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        if self.mode.derive {
            return None;
        }
        match t.kind() {
            TyKind::Array(e, _) | TyKind::Slice(e) => Some(*e),
            TyKind::Adt(d, a) => {
                let p = self.path(d.did());
                match p.as_str() {
                    "alloc::vec::Vec"
                    | "alloc::vec::into_iter::IntoIter"
                    | "alloc::collections::vec_deque::VecDeque"
                    | "alloc::collections::vec_deque::into_iter::IntoIter"
                    | "alloc::collections::linked_list::LinkedList"
                    | "alloc::collections::linked_list::IntoIter"
                    | "alloc::collections::binary_heap::BinaryHeap"
                    | "alloc::collections::binary_heap::IntoIter"
                    | "alloc::collections::btree::set::BTreeSet"
                    | "alloc::collections::btree::set::IntoIter"
                    | "std::collections::hash::set::HashSet"
                    | "std::collections::hash::set::IntoIter"
                    | "alloc::vec::drain::Drain"
                    | "alloc::collections::vec_deque::drain::Drain"
                    | "alloc::collections::binary_heap::Drain"
                    | "std::collections::hash::set::Drain"
                    | "core::array::iter::IntoIter" => Some(a.types().next()?),
                    "core::slice::iter::Iter" => {
                        Some(Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, a.types().next()?))
                    }
                    "core::slice::iter::IterMut" => {
                        Some(Ty::new_mut_ref(self.tcx, self.tcx.lifetimes.re_erased, a.types().next()?))
                    }
                    "alloc::collections::btree::map::BTreeMap"
                    | "alloc::collections::btree::map::IntoIter"
                    | "std::collections::hash::map::HashMap"
                    | "std::collections::hash::map::Drain"
                    | "std::collections::hash::map::IntoIter" => {
                        let mut i = a.types();
                        let k = i.next()?;
                        let v = i.next()?;
                        Some(Ty::new_tup(self.tcx, &[k, v]))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// collections whose iteration order is not insertion order
    pub fn reorders(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            TyKind::Adt(d, _) => {
                let p = self.path(d.did());
                p.contains("::btree::") || p.contains("::hash::") || p.contains("::binary_heap::")
            }
            _ => false,
        }
    }
    pub fn const_lin(&mut self, c: ty::Const<'tcx>) -> Lin {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return Lin::k(v as i128);
        }
        Lin::sym(self.named_sym(format!("const {c:?}")))
    }
    pub fn named_sym(&mut self, k: String) -> Sym {
        if let Some(s) = self.lens.get(&k) {
            return *s;
        }
        let s = self.fresh();
        self.lens.insert(k, s);
        s
    }
    pub fn field_ty(&self, t: Ty<'tcx>, v: u32, i: u32) -> Option<Ty<'tcx>> {
        match t.kind() {
            TyKind::Adt(d, a) => {
                let var = d.variants().get(VariantIdx::from_u32(v))?;
                let f = var.fields.get(field_idx(i))?;
                Some(self.norm_ty(f.ty(self.tcx, a).skip_norm_wip()))
            }
            TyKind::Tuple(ts) => ts.get(i as usize).copied(),
            TyKind::Closure(_, a) => a.as_closure().upvar_tys().get(i as usize).copied(),
            _ => None,
        }
    }
    pub fn nfields(&self, t: Ty<'tcx>, v: u32) -> usize {
        match t.kind() {
            TyKind::Adt(d, _) => d.variants().get(VariantIdx::from_u32(v)).map_or(0, |x| x.fields.len()),
            TyKind::Tuple(ts) => ts.len(),
            TyKind::Closure(_, a) => a.as_closure().upvar_tys().len(),
            _ => 0,
        }
    }

    // --------------------------------------------------------------- values

    pub fn mk_sym(&mut self, t: Rc<Term<'tcx>>, ty: Ty<'tcx>) -> Val<'tcx> {
        let ty = self.norm_ty(ty);
        if self.transparent(ty) {
            return self.mk_sym(t, self.peel(ty));
        }
        if let Some(item) = self.opaque_item(ty) {
            let n = match ty.kind() {
                TyKind::Array(_, c) => self.const_lin(*c),
                _ => Lin::sym(self.named_sym(format!("len {t:?}"))),
            };
            let e = self.mk_sym(Rc::new(Term::Elem(t, Lin::sym(IOTA))), item);
            return Val::Seq(Box::new(SeqV { ty, ch: vec![Chunk::Rep(n, vec![e])], norm: false }));
        }
        match ty.kind() {
            TyKind::Tuple(ts) if ts.is_empty() => Val::Adt(ty, 0, vec![]),
            TyKind::Adt(d, _) if d.is_phantom_data() => Val::Adt(ty, 0, vec![]),
            TyKind::FnDef(..) => Val::Fn(ty),
            _ => Val::Sym(t, ty),
        }
    }
    pub fn mk_uninit(&mut self, ty: Ty<'tcx>) -> Val<'tcx> {
        let ty = self.peel(ty);
        if let TyKind::Array(_, c) = ty.kind() {
            let n = self.const_lin(*c);
            return Val::Seq(Box::new(SeqV { ty, ch: vec![Chunk::Rep(n, vec![Val::Uninit])], norm: false }));
        }
        if ty.is_unit() {
            return Val::Adt(ty, 0, vec![]);
        }
        Val::Uninit
    }
    /// number of feasible variants of an enum type
    pub fn is_enum(&self, ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), TyKind::Adt(d, _) if d.is_enum())
    }
    pub fn expand(&mut self, v: &mut Val<'tcx>, facts: &[(Rc<Term<'tcx>>, u32)]) -> bool {
        if let Val::Sym(t, ty) = v {
            let (t, ty) = (t.clone(), *ty);
            if self.is_box(ty) {
                let inner = ty.boxed_ty().unwrap();
                let i = self.mk_sym(Rc::new(Term::Proj(t, 0, 0)), inner);
                *v = Val::Boxed(ty, Box::new(i));
                return true;
            }
            let var = match ty.kind() {
                TyKind::Adt(d, _) if d.is_enum() && d.variants().len() == 1 => 0,
                TyKind::Adt(d, _) if d.is_enum() => match facts.iter().find(|(x, _)| *x == t) {
                    Some((_, k)) => *k,
                    None => return false,
                },
                TyKind::Adt(d, _) if d.is_struct() => 0,
                TyKind::Tuple(_) => 0,
                _ => return false,
            };
            let n = self.nfields(ty, var);
            let mut fs = vec![];
            for i in 0..n {
                let ft = self.field_ty(ty, var, i as u32).unwrap();
                fs.push(self.mk_sym(Rc::new(Term::Proj(t.clone(), var, i as u32)), ft));
            }
            *v = Val::Adt(ty, var, fs);
            return true;
        }
        false
    }
    /// fold fully symbolic aggregates back into one symbol
    pub fn canon(&mut self, v: &Val<'tcx>) -> Val<'tcx> {
        match v {
            Val::Adt(ty, var, fs) => {
                let fs: Vec<_> = fs.iter().map(|f| self.canon(f)).collect();
                let base = fs.iter().enumerate().find_map(|(i, f)| match f {
                    Val::Sym(t, _) => match &**t {
                        Term::Proj(b, pv, pi) if pv == var && *pi == i as u32 => Some(b.clone()),
                        _ => None,
                    },
                    _ => None,
                });
                if let Some(b) = base {
                    if !matches!(ty.kind(), TyKind::Closure(..)) {
                        let mut s = Val::Sym(b.clone(), *ty);
                        if self.expand(&mut s, &[(b.clone(), *var)]) {
                            if let Val::Adt(_, _, gs) = &s {
                                let gs: Vec<_> = gs.clone().iter().map(|g| self.canon(g)).collect();
                                if gs == fs {
                                    return Val::Sym(b, *ty);
                                }
                            }
                        }
                    }
                }
                Val::Adt(*ty, *var, fs)
            }
            Val::Boxed(ty, b) => {
                let b = self.canon(b);
                if let Val::Sym(t, _) = &b {
                    if let Term::Proj(x, 0, 0) = &**t {
                        let mut s = Val::Sym(x.clone(), *ty);
                        self.expand(&mut s, &[]);
                        if let Val::Boxed(_, y) = &s {
                            if **y == b {
                                return Val::Sym(x.clone(), *ty);
                            }
                        }
                    }
                }
                Val::Boxed(*ty, Box::new(b))
            }
            Val::Seq(q) => {
                let mut ch = vec![];
                for c in &q.ch {
                    ch.push(match c {
                        Chunk::One(x) => Chunk::One(self.canon(x)),
                        Chunk::Rep(n, t) => Chunk::Rep(n.clone(), t.iter().map(|x| self.canon(x)).collect()),
                    });
                }
                Val::Seq(Box::new(SeqV { ty: q.ty, ch: normalise(&ch), norm: q.norm }))
            }
            v => v.clone(),
        }
    }
    pub fn is_zst(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            TyKind::Tuple(ts) => ts.iter().all(|t| self.is_zst(t)),
            TyKind::FnDef(..) => true,
            TyKind::Adt(d, _) if d.is_phantom_data() => true,
            TyKind::Adt(d, a) if d.is_struct() => {
                d.all_fields().all(|f| self.is_zst(self.norm_ty(f.ty(self.tcx, a).skip_norm_wip())))
            }
            TyKind::Closure(_, a) => a.as_closure().upvar_tys().iter().all(|t| self.is_zst(t)),
            TyKind::Array(_, n) => n.try_to_target_usize(self.tcx) == Some(0),
            _ => false,
        }
    }
    pub fn zst_val(&self, ty: Ty<'tcx>) -> Val<'tcx> {
        match ty.kind() {
            TyKind::FnDef(..) => Val::Fn(ty),
            TyKind::Array(..) => Val::Seq(Box::new(SeqV { ty, ch: vec![], norm: false })),
            _ => {
                let n = self.nfields(ty, 0);
                Val::Adt(ty, 0, (0..n).map(|i| self.zst_val(self.field_ty(ty, 0, i as u32).unwrap())).collect())
            }
        }
    }
    /// does the value (seen at type `ty`) contain uninitialised memory?
    pub fn uninit_in(&self, v: &Val<'tcx>, ty: Ty<'tcx>) -> bool {
        if let TyKind::Adt(d, _) = ty.kind() {
            if self.tcx.is_lang_item(d.did(), LangItem::MaybeUninit) {
                return false;
            }
        }
        let ty = if self.transparent(ty) {
            let TyKind::Adt(_, a) = ty.kind() else { unreachable!() };
            return self.uninit_in(v, a.type_at(0));
        } else {
            ty
        };
        match v {
            Val::Uninit | Val::Stale => !self.is_zst(ty),
            Val::Adt(t, k, fs) => {
                let t = *t;
                fs.iter().enumerate().any(|(i, f)| {
                    let ft = self.field_ty(t, *k, i as u32).unwrap_or(t);
                    self.uninit_in(f, ft)
                })
            }
            Val::Seq(q) => {
                let it = self.opaque_item(ty).or_else(|| self.opaque_item(q.ty));
                match it {
                    Some(it) => normalise(&q.ch).iter().any(|c| match c {
                        Chunk::One(x) => self.uninit_in(x, it),
                        Chunk::Rep(_, t) => t.iter().any(|x| self.uninit_in(x, it)),
                    }),
                    None => false,
                }
            }
            Val::Boxed(t, b) => self.uninit_in(b, t.boxed_ty().unwrap_or(*t)),
            _ => false,
        }
    }
    pub fn retype(&self, v: Val<'tcx>, ty: Ty<'tcx>) -> Val<'tcx> {
        let ty = self.peel(ty);
        match v {
            Val::Seq(mut q) if self.opaque_item(ty).is_some() => {
                q.ty = ty;
                Val::Seq(q)
            }
            v => v,
        }
    }
    pub fn seq_len(q: &SeqV<'tcx>) -> Lin {
        let mut l = Lin::k(0);
        for c in &q.ch {
            l = match c {
                Chunk::One(_) => l.addk(1),
                Chunk::Rep(n, t) => l.axpy(t.len() as i128, n),
            };
        }
        l
    }
    pub fn empty_seq(&self, ty: Ty<'tcx>) -> Val<'tcx> {
        Val::Seq(Box::new(SeqV { ty, ch: vec![], norm: self.reorders(ty) }))
    }
    pub fn variant_named(&self, ty: Ty<'tcx>, n: &str) -> u32 {
        let TyKind::Adt(d, _) = ty.kind() else { return 0 };
        d.variants().iter().position(|v| v.name.as_str() == n).unwrap_or(0) as u32
    }
    pub fn some(&self, ty: Ty<'tcx>, v: Val<'tcx>) -> Val<'tcx> {
        Val::Adt(ty, self.variant_named(ty, "Some"), vec![v])
    }
    pub fn none(&self, ty: Ty<'tcx>) -> Val<'tcx> {
        Val::Adt(ty, self.variant_named(ty, "None"), vec![])
    }
    pub fn option_of(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let d = self.tcx.require_lang_item(LangItem::Option, self.span);
        Ty::new_adt(self.tcx, self.tcx.adt_def(d), self.tcx.mk_args(&[t.into()]))
    }

    // ------------------------------------------------------------ locations

    /// isolate element `idx` of a sequence as a single chunk
    pub fn isolate<'a>(&self, q: &'a mut SeqV<'tcx>, idx: &Lin, cons: &Cons) -> R<&'a mut Val<'tcx>> {
        let mut off = Lin::k(0);
        let mut at = None;
        for i in 0..q.ch.len() {
            let rel = idx.sub(&off);
            match &q.ch[i] {
                Chunk::One(_) => {
                    if rel.konst() == Some(0) {
                        at = Some((i, None));
                        break;
                    }
                    if !cons.implied(&rel.addk(-1)) {
                        break;
                    }
                    off = off.addk(1);
                }
                Chunk::Rep(n, t) => {
                    if t.len() == 1 && cons.implied(&rel) && cons.implied(&n.sub(&rel).addk(-1)) {
                        at = Some((i, Some(rel)));
                        break;
                    }
                    let len = n.scale(t.len() as i128);
                    if !cons.implied(&rel.sub(&len)) {
                        break;
                    }
                    off = off.add(&len);
                }
            }
        }
        match at {
            Some((i, None)) => {
                if let Chunk::One(v) = &mut q.ch[i] {
                    return Ok(v);
                }
                unreachable!()
            }
            Some((i, Some(rel))) => {
                let Chunk::Rep(n, t) = q.ch[i].clone() else { unreachable!() };
                let mut new = vec![];
                if rel.konst() != Some(0) {
                    new.push(Chunk::Rep(rel.clone(), t.clone()));
                }
                let mid = i + new.len();
                new.push(Chunk::One(t[0].sub_(IOTA, &rel)));
                let rest = n.sub(&rel).addk(-1);
                if rest.konst() != Some(0) {
                    new.push(Chunk::Rep(rest, t.sub_(IOTA, &Lin::sym(IOTA).add(&rel).addk(1))));
                }
                q.ch.splice(i..i + 1, new);
                if let Chunk::One(v) = &mut q.ch[mid] {
                    return Ok(v);
                }
                unreachable!()
            }
            None => ub!(self, "element access at index {idx:?} not provably within the bounds of a sequence of length {:?}", Self::seq_len(q)),
        }
    }
    /// chunk boundary at `idx`
    pub fn cut(&self, q: &mut SeqV<'tcx>, idx: &Lin, cons: &Cons) -> R<usize> {
        let mut off = Lin::k(0);
        let n = q.ch.len();
        for i in 0..=n {
            let rel = idx.sub(&off);
            if rel.konst() == Some(0) {
                return Ok(i);
            }
            if i == n {
                break;
            }
            match &q.ch[i] {
                Chunk::One(_) => {
                    if !cons.implied(&rel.addk(-1)) {
                        break;
                    }
                    off = off.addk(1);
                }
                Chunk::Rep(m, t) => {
                    let len = m.scale(t.len() as i128);
                    if cons.implied(&rel.sub(&len)) {
                        off = off.add(&len);
                        continue;
                    }
                    if t.len() == 1 && cons.implied(&rel) && cons.implied(&m.sub(&rel)) {
                        let Chunk::Rep(m, t) = q.ch[i].clone() else { unreachable!() };
                        q.ch.splice(
                            i..i + 1,
                            [
                                Chunk::Rep(rel.clone(), t.clone()),
                                Chunk::Rep(m.sub(&rel), t.sub_(IOTA, &Lin::sym(IOTA).add(&rel))),
                            ],
                        );
                        return Ok(i + 1);
                    }
                    break;
                }
            }
        }
        ub!(self, "slice boundary {idx:?} not provably within the bounds of a sequence of length {:?}", Self::seq_len(q))
    }

    pub fn loc_mut<'a>(&mut self, st: &'a mut State<'tcx>, loc: &Loc) -> R<&'a mut Val<'tcx>> {
        let facts = st.facts.clone();
        let cons = st.cons.clone();
        let Some(fr) = st.frames.get_mut(loc.frame as usize) else { und!(self, "dangling reference") };
        let mut v = &mut fr[loc.local as usize];
        for p in &loc.proj {
            match p {
                P::Field(i) => {
                    self.expand(v, &facts);
                    let ok = matches!(v, Val::Adt(_, _, fs) if (*i as usize) < fs.len());
                    if !ok {
                        und!(self, "field {i} of {v:?}");
                    }
                    let Val::Adt(_, _, fs) = v else { unreachable!() };
                    v = &mut fs[*i as usize];
                }
                P::Down(k) => {
                    self.expand(v, &facts);
                    match v {
                        Val::Adt(_, j, _) if j == k => {}
                        x => und!(self, "downcast to variant {k} of {x:?}"),
                    }
                }
                P::Deref => {
                    self.expand(v, &facts);
                    match v {
                        Val::Boxed(_, b) => v = b,
                        x => und!(self, "deref of {x:?}"),
                    }
                }
                P::Idx(l) => match v {
                    Val::Seq(q) => {
                        if q.norm {
                            und!(self, "element access in a re-collected ordered or hashed collection");
                        }
                        v = self.isolate(q, l, &cons)?
                    }
                    x => und!(self, "index into {x:?}"),
                },
                P::Slice(..) => und!(self, "whole slice used as a value"),
            }
        }
        Ok(v)
    }
    pub fn read(&mut self, st: &mut State<'tcx>, loc: &Loc) -> R<Val<'tcx>> {
        let loc = st.fix_loc(loc);
        Ok(self.loc_mut(st, &loc)?.clone())
    }
    pub fn write(&mut self, st: &mut State<'tcx>, loc: &Loc, v: Val<'tcx>) -> R<()> {
        let loc = st.fix_loc(loc);
        *self.loc_mut(st, &loc)? = v;
        Ok(())
    }
    pub fn take(&mut self, st: &mut State<'tcx>, loc: &Loc) -> R<Val<'tcx>> {
        let loc = st.fix_loc(loc);
        Ok(std::mem::replace(self.loc_mut(st, &loc)?, Val::Uninit))
    }
    pub fn idx_loc(loc: &Loc, i: Lin) -> Loc {
        let mut l = loc.clone();
        if let Some(P::Slice(a, _)) = l.proj.last().cloned() {
            l.proj.pop();
            l.proj.push(P::Idx(a.add(&i)));
        } else {
            l.proj.push(P::Idx(i));
        }
        l
    }
    pub fn slice_loc(loc: &Loc, a: Lin, b: Lin) -> Loc {
        let mut l = loc.clone();
        if let Some(P::Slice(x, _)) = l.proj.last().cloned() {
            l.proj.pop();
            l.proj.push(P::Slice(x.add(&a), x.add(&b)));
        } else {
            l.proj.push(P::Slice(a, b));
        }
        l
    }
    /// length of the sequence (or slice) a location denotes
    pub fn loc_len(&mut self, st: &mut State<'tcx>, loc: &Loc) -> R<Lin> {
        if let Some(P::Slice(a, b)) = loc.proj.last() {
            return Ok(b.sub(a));
        }
        match self.read(st, loc)? {
            Val::Seq(q) if !q.norm => Ok(Self::seq_len(&q)),
            v => und!(self, "length of {v:?}"),
        }
    }

    pub fn place(&mut self, f: &Fx<'tcx>, st: &mut State<'tcx>, p: &Place<'tcx>) -> R<Option<Loc>> {
        let mut loc = Loc { frame: f.fi, local: p.local.as_u32(), proj: vec![] };
        for (base, e) in p.iter_projections() {
            use mir::ProjectionElem::*;
            match e {
                Deref => match self.read(st, &loc)? {
                    Val::Ref(l) => loc = l,
                    Val::Boxed(..) => loc.proj.push(P::Deref),
                    Val::Sym(_, t) if t.is_box() => loc.proj.push(P::Deref),
                    Val::Sym(..) | Val::Top => return Ok(None),
                    Val::Adt(_, _, fs) if fs.iter().any(|x| matches!(x, Val::Ref(_))) => {
                        let Some(Val::Ref(l)) = fs.into_iter().find(|x| matches!(x, Val::Ref(_))) else {
                            unreachable!()
                        };
                        loc = l
                    }
                    v => und!(self, "dereference of {v:?}"),
                },
                Field(i, _) => {
                    let bt = self.mono(f.args, base.ty(f.body, self.tcx).ty);
                    if self.transparent(bt) {
                        continue;
                    }
                    if let Val::Top = self.read(st, &loc)? {
                        return Ok(None);
                    }
                    loc.proj.push(P::Field(i.as_u32()));
                }
                Downcast(_, v) => {
                    if let Val::Top = self.read(st, &loc)? {
                        return Ok(None);
                    }
                    loc.proj.push(P::Down(v.as_u32()))
                }
                Index(l) => {
                    let il = Loc { frame: f.fi, local: l.as_u32(), proj: vec![] };
                    match self.read(st, &il)? {
                        Val::Int(i) => loc = Self::idx_loc(&loc, i),
                        v => und!(self, "index with unknown value {v:?}"),
                    }
                }
                ConstantIndex { offset, from_end, .. } => {
                    let i = if from_end {
                        self.loc_len(st, &loc)?.addk(-(offset as i128))
                    } else {
                        Lin::k(offset as i128)
                    };
                    loc = Self::idx_loc(&loc, i);
                }
                Subslice { from, to, from_end } => {
                    let end = if from_end {
                        self.loc_len(st, &loc)?.addk(-(to as i128))
                    } else {
                        Lin::k(to as i128)
                    };
                    loc = Self::slice_loc(&loc, Lin::k(from as i128), end);
                }
                _ => {}
            }
        }
        Ok(Some(loc))
    }
    pub fn place_ty(&self, f: &Fx<'tcx>, p: &Place<'tcx>) -> Ty<'tcx> {
        self.mono(f.args, p.ty(f.body, self.tcx).ty)
    }

    // ------------------------------------------------------------- operands

    pub fn constant(&mut self, f: &Fx<'tcx>, c: &mir::ConstOperand<'tcx>) -> R<Val<'tcx>> {
        let k = self.mono(f.args, c.const_);
        let ty = k.ty();
        if self.is_zst(ty) {
            return Ok(self.zst_val(ty));
        }
        if let mir::Const::Ty(_, ct) = k {
            if ty.is_usize() {
                return Ok(Val::Int(self.const_lin(ct)));
            }
        }
        if ty.is_integral() || ty.is_bool() || ty.is_char() {
            if let Some(s) = k.try_eval_scalar_int(self.tcx, self.env) {
                let v = if ty.is_signed() {
                    s.to_int(s.size())
                } else {
                    s.to_uint(s.size()) as i128
                };
                return Ok(Val::Int(Lin::k(v)));
            }
            return Ok(Val::Top);
        }
        // associated or named constants of enum type without payload
        if let TyKind::Adt(d, _) = ty.kind() {
            if d.is_enum() {
                if let Ok(v) = k.eval(self.tcx, self.env, c.span) {
                    if let Some(x) = self.tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                        if x.fields.is_empty() {
                            return Ok(Val::Adt(ty, x.variant.map_or(0, |v| v.as_u32()), vec![]));
                        }
                    }
                }
            }
        }
        Ok(Val::Top)
    }

    pub fn operand(&mut self, f: &Fx<'tcx>, st: &mut State<'tcx>, o: &Operand<'tcx>) -> R<Val<'tcx>> {
        match o {
            Operand::Constant(c) => {
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if let (Some(p), true) = (u.promoted, u.def == f.def) {
                        let l = (f.body.local_decls.len() + p.as_usize()) as u32;
                        if st.frames[f.fi as usize].get(l as usize).is_some_and(|v| !matches!(v, Val::Uninit)) {
                            return Ok(Val::Ref(Loc { frame: f.fi, local: l, proj: vec![] }));
                        }
                    }
                }
                self.constant(f, c)
            }
            Operand::RuntimeChecks(_) => Ok(Val::bool(false)),
            Operand::Copy(p) | Operand::Move(p) => {
                let Some(l) = self.place(f, st, p)? else { return Ok(Val::Top) };
                let v = if matches!(o, Operand::Move(_)) { self.take(st, &l)? } else { self.read(st, &l)? };
                let v = match v {
                    Val::Uninit => {
                        let ty = self.place_ty(f, p);
                        if self.is_zst(ty) {
                            self.zst_val(ty)
                        } else if self.transparent(ty) {
                            Val::Uninit
                        } else {
                            ub!(self, "read of uninitialised or moved-out value {p:?}: {ty:?}")
                        }
                    }
                    Val::Stale => und!(self, "value {p:?} varies between loop iterations"),
                    v => v,
                };
                Ok(v)
            }
        }
    }

    fn int_max(&self, ty: Ty<'tcx>) -> Option<i128> {
        Some(match ty.kind() {
            TyKind::Uint(u) => match u.bit_width() {
                Some(w) if w < 64 => (1i128 << w) - 1,
                _ => return None,
            },
            TyKind::Int(u) => match u.bit_width() {
                Some(w) if w < 64 => (1i128 << (w - 1)) - 1,
                _ => return None,
            },
            _ => return None,
        })
    }
    /// may the value exceed the type?  (None: certainly not)
    fn overflow(&mut self, st: &State<'tcx>, l: &Lin, ty: Ty<'tcx>) -> bool {
        let signed = ty.is_signed();
        if !signed && !st.cons.implied(l) {
            return true;
        }
        if signed && l.konst().is_none() {
            return true;
        }
        if let Some(c) = l.konst() {
            if signed {
                let m = self.int_max(ty).unwrap_or(i64::MAX as i128);
                return c > m || c < -m - 1;
            }
            return c > self.int_max(ty).unwrap_or(u64::MAX as i128);
        }
        match self.int_max(ty) {
            Some(m) => !st.cons.implied(&Lin::k(m).sub(l)),
            None => {
                // 64 bit: bounded by the length of some collection?
                let syms: Vec<Sym> = self.lens.values().copied().collect();
                !syms.iter().any(|s| st.cons.implied(&Lin::sym(*s).sub(l)))
            }
        }
    }

    /// a value held in an unsigned variable is never negative; None if the path contradicts that
    fn in_range(st: &State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> Option<State<'tcx>> {
        match (v, t.kind()) {
            (Val::Int(l), TyKind::Uint(_)) if l.konst().is_none() => st.assume(&st.resolve(l)),
            _ => Some(st.clone()),
        }
    }
    pub fn compare(&mut self, st: State<'tcx>, op: BinOp, a: &Lin, b: &Lin) -> Vec<(State<'tcx>, bool)> {
        let mut out = vec![];
        let d = a.sub(b); // a-b
        let go = |out: &mut Vec<(State<'tcx>, bool)>, s: Option<State<'tcx>>, v: bool| {
            if let Some(s) = s {
                out.push((s, v))
            }
        };
        match op {
            BinOp::Lt | BinOp::Ge => {
                let neg = op == BinOp::Ge;
                go(&mut out, st.assume(&d.neg().addk(-1)), !neg);
                go(&mut out, st.assume(&d), neg);
            }
            BinOp::Gt | BinOp::Le => {
                let neg = op == BinOp::Le;
                go(&mut out, st.assume(&d.addk(-1)), !neg);
                go(&mut out, st.assume(&d.neg()), neg);
            }
            _ => {
                let neg = op == BinOp::Ne;
                go(&mut out, st.assume_eq(&d), !neg);
                go(&mut out, st.assume(&d.addk(-1)), neg);
                go(&mut out, st.assume(&d.neg().addk(-1)), neg);
            }
        }
        out
    }

    fn rvalue(&mut self, f: &Fx<'tcx>, mut st: State<'tcx>, rv: &Rvalue<'tcx>, dty: Ty<'tcx>) -> R<Vec<(State<'tcx>, Val<'tcx>)>> {
        let one = |st, v| Ok(vec![(st, v)]);
        match rv {
            Rvalue::Use(o, ..) => {
                let v = self.operand(f, &mut st, o)?;
                one(st, v)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(f, &mut st, o)?;
                let n = self.mono(f.args, *n);
                let n = self.const_lin(n);
                one(st, Val::Seq(Box::new(SeqV { ty: dty, ch: vec![Chunk::Rep(n, vec![v])], norm: false })))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                // `&*r` and `&mut *r` of a reference about which nothing is known
                if let Some((base, mir::ProjectionElem::Deref)) = p.iter_projections().last() {
                    let b = Place { local: base.local, projection: self.tcx.mk_place_elems(base.projection) };
                    if let Some(l) = self.place(f, &mut st, &b)? {
                        if let v @ Val::Sym(_, t) = self.read(&mut st, &l)? {
                            if t == dty && t.is_ref() {
                                return one(st, v);
                            }
                        }
                    }
                }
                match self.place(f, &mut st, p)? {
                    Some(l) => one(st, Val::Ref(l)),
                    None => one(st, Val::Top),
                }
            }
            Rvalue::CopyForDeref(p) => {
                let Some(l) = self.place(f, &mut st, p)? else { return one(st, Val::Top) };
                let v = self.read(&mut st, &l)?;
                one(st, v)
            }
            Rvalue::Discriminant(p) => {
                let Some(l) = self.place(f, &mut st, p)? else { return one(st, Val::Top) };
                let pty = self.place_ty(f, p);
                self.discriminant(st, &l, pty)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vs = vec![];
                for o in ops {
                    vs.push(self.operand(f, &mut st, o)?);
                }
                use mir::AggregateKind::*;
                let v = match &**k {
                    Array(_) => Val::Seq(Box::new(SeqV {
                        ty: dty,
                        ch: vs.into_iter().map(Chunk::One).collect(),
                        norm: false,
                    })),
                    Tuple => Val::Adt(dty, 0, vs),
                    Adt(_, v, _, _, active) => {
                        if active.is_some() || self.transparent(dty) {
                            vs.into_iter().next().unwrap_or(Val::Uninit)
                        } else {
                            Val::Adt(dty, v.as_u32(), vs)
                        }
                    }
                    Closure(..) => Val::Adt(dty, 0, vs),
                    RawPtr(..) => {
                        // thin pointer + metadata
                        match (&vs[0], &vs[1]) {
                            (Val::Ref(l), Val::Int(n)) => {
                                let mut l = l.clone();
                                let a = match l.proj.pop() {
                                    Some(P::Idx(a)) => a,
                                    _ => und!(self, "slice pointer built from a non-element pointer"),
                                };
                                Val::Ref(Self::slice_loc(&l, a.clone(), a.add(n)))
                            }
                            (v, _) => v.clone(),
                        }
                    }
                    _ => und!(self, "aggregate {k:?}"),
                };
                one(st, v)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(f, &mut st, o)?;
                let v = match (op, v) {
                    (UnOp::Not, Val::Int(l)) if dty.is_bool() => Val::Int(Lin::k(1).sub(&l)),
                    (UnOp::Neg, Val::Int(l)) => Val::Int(l.neg()),
                    (UnOp::PtrMetadata, Val::Ref(l)) => {
                        if dty.is_unit() {
                            Val::unit(self.tcx)
                        } else {
                            Val::Int(self.loc_len(&mut st, &l)?)
                        }
                    }
                    _ => Val::Top,
                };
                one(st, v)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(f, &mut st, &ab.0)?;
                let b = self.operand(f, &mut st, &ab.1)?;
                for (o, v) in [(&ab.0, &a), (&ab.1, &b)] {
                    let t = o.ty(f.body, self.tcx);
                    match Self::in_range(&st, v, t) {
                        Some(s) => st = s,
                        None => return Ok(vec![]),
                    }
                }
                let (a, b) = (st.fix(&a), st.fix(&b));
                self.binop(st, *op, a, b, dty)
            }
            Rvalue::Cast(k, o, ty) => {
                let ty = self.mono(f.args, *ty);
                let oty = self.mono(f.args, o.ty(f.body, self.tcx));
                let v = self.operand(f, &mut st, o)?;
                let v = self.cast(&mut st, *k, v, oty, ty)?;
                one(st, v)
            }
            Rvalue::ThreadLocalRef(_) => one(st, Val::Top),
            Rvalue::WrapUnsafeBinder(..) => und!(self, "unsafe binder"),
        }
    }

    pub fn binop(&mut self, st: State<'tcx>, op: BinOp, a: Val<'tcx>, b: Val<'tcx>, dty: Ty<'tcx>) -> R<Vec<(State<'tcx>, Val<'tcx>)>> {
        use BinOp::*;
        let tup = |v: Val<'tcx>, o: Val<'tcx>| Val::Adt(dty, 0, vec![v, o]);
        if op == Offset {
            if let (Val::Ref(l), Val::Int(n)) = (&a, &b) {
                let mut l = l.clone();
                if let Some(P::Idx(i)) = l.proj.last().cloned() {
                    l.proj.pop();
                    l.proj.push(P::Idx(i.add(n)));
                    return Ok(vec![(st, Val::Ref(l))]);
                }
            }
            und!(self, "pointer offset");
        }
        let (x, y) = match (&a, &b) {
            (Val::Int(x), Val::Int(y)) => (x.clone(), y.clone()),
            (Val::Ref(x), Val::Ref(y)) if matches!(op, Eq | Ne) && x == y => {
                return Ok(vec![(st, Val::bool(op == Eq))]);
            }
            _ => {
                return Ok(vec![(
                    st,
                    match op {
                        AddWithOverflow | SubWithOverflow | MulWithOverflow => tup(Val::Top, Val::Top),
                        _ => Val::Top,
                    },
                )])
            }
        };
        Ok(match op {
            Eq | Ne | Lt | Le | Gt | Ge => {
                self.compare(st, op, &x, &y).into_iter().map(|(s, v)| (s, Val::bool(v))).collect()
            }
            Add | AddUnchecked | Sub | SubUnchecked | Mul | MulUnchecked | AddWithOverflow | SubWithOverflow
            | MulWithOverflow => {
                let chk = matches!(op, AddWithOverflow | SubWithOverflow | MulWithOverflow);
                let ity = if chk { self.field_ty(dty, 0, 0).unwrap_or(dty) } else { dty };
                let r = match op {
                    Add | AddUnchecked | AddWithOverflow => x.add(&y),
                    Sub | SubUnchecked | SubWithOverflow => x.sub(&y),
                    _ => match (x.konst(), y.konst()) {
                        (Some(c), _) => y.scale(c),
                        (_, Some(c)) => x.scale(c),
                        _ => return Ok(vec![(st, if chk { tup(Val::Top, Val::Top) } else { Val::Top })]),
                    },
                };
                let unsigned_neg = !ity.is_signed() && st.cons.refuted(&r);
                let of = self.overflow(&st, &r, ity);
                let v = if of { Val::Top } else { Val::Int(r.clone()) };
                if chk {
                    // after the check the exact value is known
                    let o = if unsigned_neg {
                        Val::bool(true)
                    } else if of {
                        // fork: either it overflows, or the exact result holds
                        let mut out = vec![(st.clone(), tup(Val::Top, Val::bool(true)))];
                        if !ity.is_signed() {
                            if let Some(s) = st.assume(&r) {
                                out.push((s, tup(Val::Int(r), Val::bool(false))));
                            }
                        } else {
                            out.push((st, tup(Val::Int(r), Val::bool(false))));
                        }
                        return Ok(out);
                    } else {
                        Val::bool(false)
                    };
                    vec![(st, tup(v, o))]
                } else {
                    vec![(st, v)]
                }
            }
            BitAnd | BitOr | BitXor if dty.is_bool() => match (x.konst(), y.konst()) {
                (Some(p), Some(q)) => {
                    let r = match op {
                        BitAnd => p & q,
                        BitOr => p | q,
                        _ => p ^ q,
                    };
                    vec![(st, Val::Int(Lin::k(r)))]
                }
                _ => vec![(st, Val::Top)],
            },
            Div | Rem | Shl | Shr | BitAnd | BitOr | BitXor => match (x.konst(), y.konst()) {
                (Some(p), Some(q)) if p >= 0 && q > 0 && q < 64 && p < (1 << 60) => {
                    let r = match op {
                        Div => p / q,
                        Rem => p % q,
                        Shr => p >> q,
                        BitAnd => p & q,
                        BitOr => p | q,
                        BitXor => p ^ q,
                        _ => return Ok(vec![(st, Val::Top)]),
                    };
                    vec![(st, Val::Int(Lin::k(r)))]
                }
                _ => vec![(st, Val::Top)],
            },
            _ => vec![(st, Val::Top)],
        })
    }

    /// the only inhabited variant of an enum without any other
    fn one_variant(&self, ty: Ty<'tcx>) -> Option<VariantIdx> {
        let TyKind::Adt(d, a) = ty.kind() else { return None };
        if !d.is_enum() {
            return None;
        }
        let mut it = d.variants().iter_enumerated().filter(|(_, v)| {
            !v.fields.iter().any(|f| f.ty(self.tcx, a).skip_norm_wip().is_never())
        });
        let r = it.next()?.0;
        it.next().is_none().then_some(r)
    }

    pub fn discriminant(&mut self, mut st: State<'tcx>, l: &Loc, pty: Ty<'tcx>) -> R<Vec<(State<'tcx>, Val<'tcx>)>> {
        let facts = st.facts.clone();
        let l = st.fix_loc(l);
        let v = {
            let v = self.loc_mut(&mut st, &l)?;
            let mut c = v.clone();
            self.expand(&mut c, &facts);
            c
        };
        match v {
            Val::Adt(ty, k, _) => {
                let d = ty.discriminant_for_variant(self.tcx, VariantIdx::from_u32(k)).map_or(k as i128, |d| d.val as i128);
                Ok(vec![(st, Val::Int(Lin::k(d)))])
            }
            Val::Sym(t, ty) if self.is_enum(ty) => {
                let TyKind::Adt(d, _) = ty.kind() else { unreachable!() };
                let mut out = vec![];
                for (vi, _) in d.variants().iter_enumerated() {
                    let mut s = st.clone();
                    s.facts.push((t.clone(), vi.as_u32()));
                    let dv = ty.discriminant_for_variant(self.tcx, vi).map_or(vi.as_u32() as i128, |d| d.val as i128);
                    out.push((s, Val::Int(Lin::k(dv))));
                }
                Ok(out)
            }
            Val::Top => Ok(vec![(st, Val::Top)]),
            // e.g. an uninhabited residual, which has no bytes to initialise
            Val::Uninit if self.one_variant(pty).is_some() => {
                let k = self.one_variant(pty).unwrap();
                let d = pty.discriminant_for_variant(self.tcx, k).map_or(k.as_u32() as i128, |d| d.val as i128);
                Ok(vec![(st, Val::Int(Lin::k(d)))])
            }
            Val::Uninit => ub!(self, "discriminant of an uninitialised or moved-out value"),
            v => und!(self, "discriminant of {v:?}: {pty:?}"),
        }
    }

    fn pointee(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match t.kind() {
            TyKind::RawPtr(p, _) | TyKind::Ref(_, p, _) => Some(*p),
            TyKind::Adt(d, a)
                if matches!(self.path(d.did()).as_str(), "core::ptr::non_null::NonNull" | "core::ptr::unique::Unique") =>
            {
                Some(a.type_at(0))
            }
            _ => None,
        }
    }
    /// a location of type `from` reinterpreted as a location of type `to`
    pub fn recast_loc(&mut self, l: Loc, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Loc> {
        let (from, to) = (self.peel(from), self.peel(to));
        let mut l = l;
        let seq = |t: Ty<'tcx>| matches!(t.kind(), TyKind::Array(..) | TyKind::Slice(_));
        if from == to {
            return Ok(l);
        }
        match (seq(from), seq(to)) {
            (true, true) => {
                if matches!(to.kind(), TyKind::Array(..)) && matches!(from.kind(), TyKind::Slice(_)) {
                    // back to the whole array
                    if let Some(P::Slice(a, _)) = l.proj.last() {
                        if a.konst() == Some(0) {
                            l.proj.pop();
                        } else {
                            und!(self, "cast of a sub-slice to an array");
                        }
                    }
                }
                Ok(l)
            }
            (true, false) => Ok(Self::idx_loc(&l, Lin::k(0))),
            (false, true) => {
                if let Some(P::Idx(i)) = l.proj.last() {
                    if i.konst() == Some(0) {
                        l.proj.pop();
                        return Ok(l);
                    }
                }
                und!(self, "cast of an element pointer to an array pointer")
            }
            _ => {
                // first (only) field of a wrapper
                if let TyKind::Adt(d, _) = from.kind() {
                    if d.is_struct() {
                        for i in 0..self.nfields(from, 0) {
                            let ft = self.peel(self.field_ty(from, 0, i as u32).unwrap());
                            if ft == to {
                                l.proj.push(P::Field(i as u32));
                                return Ok(l);
                            }
                        }
                    }
                }
                if matches!(to.kind(), TyKind::Dynamic(..)) {
                    return Ok(l);
                }
                if let (TyKind::Param(_), TyKind::Param(_)) = (from.kind(), to.kind()) {
                    und!(self, "pointer cast from {from:?} to {to:?}");
                }
                Ok(l)
            }
        }
    }
    pub fn cast(&mut self, st: &mut State<'tcx>, k: mir::CastKind, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        use mir::CastKind::*;
        if from == to && matches!(k, PointerCoercion(..) | Subtype) {
            return Ok(v);
        }
        Ok(match k {
            IntToInt => match v {
                Val::Int(l) => {
                    if self.overflow(st, &l, to) {
                        Val::Top
                    } else {
                        Val::Int(l)
                    }
                }
                _ => Val::Top,
            },
            PtrToPtr | PointerCoercion(..) | Transmute | BoxDerefTransmute | Subtype => {
                match v {
                    Val::Ref(l) => match (self.pointee(from), self.pointee(to)) {
                        (Some(a), Some(b)) => {
                            let l = self.recast_loc(l, a, b)?;
                            let l = if matches!(b.kind(), TyKind::Slice(_)) && matches!(self.peel(a).kind(), TyKind::Array(..)) {
                                let n = self.loc_len(st, &l)?;
                                Self::slice_loc(&l, Lin::k(0), n)
                            } else {
                                l
                            };
                            if matches!(to.kind(), TyKind::Adt(..)) {
                                Val::Adt(to, 0, vec![Val::Ref(l)])
                            } else {
                                Val::Ref(l)
                            }
                        }
                        _ => und!(self, "cast from {from:?} to {to:?}"),
                    },
                    Val::Adt(_, _, fs) if self.pointee(from).is_some() && self.pointee(to).is_some() => {
                        match fs.into_iter().find(|x| matches!(x, Val::Ref(_))) {
                            Some(Val::Ref(l)) => {
                                let (a, b) = (self.pointee(from).unwrap(), self.pointee(to).unwrap());
                                Val::Ref(self.recast_loc(l, a, b)?)
                            }
                            _ => Val::Top,
                        }
                    }
                    Val::Boxed(_, b) => Val::Boxed(to, b),
                    v => {
                        if matches!(k, Transmute) && !self.layout_same(from, to) {
                            if self.tracked(&v) {
                                und!(self, "transmute from {from:?} to {to:?}");
                            }
                            Val::Top
                        } else {
                            if self.uninit_in(&v, to) {
                                ub!(self, "transmute of uninitialised memory to {to:?}");
                            }
                            self.retype(v, to)
                        }
                    }
                }
            }
            _ => {
                if self.tracked(&v) {
                    und!(self, "cast {k:?}");
                }
                Val::Top
            }
        })
    }
    fn layout_same(&self, a: Ty<'tcx>, b: Ty<'tcx>) -> bool {
        let (a, b) = (self.peel(a), self.peel(b));
        if a == b {
            return true;
        }
        match (a.kind(), b.kind()) {
            (TyKind::Array(x, n), TyKind::Array(y, m)) => n == m && self.layout_same(*x, *y),
            _ => false,
        }
    }
    pub fn tracked(&self, v: &Val<'tcx>) -> bool {
        match v {
            Val::Uninit | Val::Top | Val::Int(_) | Val::Fn(_) => false,
            Val::Adt(_, _, fs) => fs.iter().any(|x| self.tracked(x)),
            Val::Stale | Val::Ref(_) | Val::Sym(..) | Val::Seq(_) => true,
            Val::Boxed(_, b) => self.tracked(b),
        }
    }

    // ---------------------------------------------------------------- drops

    pub fn log_drop(&mut self, st: &mut State<'tcx>, v: Val<'tcx>, ty: Ty<'tcx>, strict: bool) -> R<()> {
        if self.mode.derive {
            return Ok(());
        }
        if let TyKind::Adt(d, _) = ty.kind() {
            if d.is_manually_drop() || self.tcx.is_lang_item(d.did(), LangItem::MaybeUninit) {
                return Ok(());
            }
        }
        match v {
            Val::Uninit => {
                if strict && !self.is_zst(ty) {
                    ub!(self, "drop of an uninitialised or already dropped value of type {ty:?}");
                }
            }
            Val::Stale => und!(self, "drop of a value that varies between loop iterations"),
            Val::Top | Val::Int(_) | Val::Fn(_) | Val::Ref(_) => {}
            Val::Sym(..) => {
                let v = self.canon(&v);
                st.drops.push(Chunk::One(v))
            }
            Val::Adt(t, k, fs) => {
                for (i, x) in fs.into_iter().enumerate() {
                    if let Some(ft) = self.field_ty(t, k, i as u32) {
                        if let TyKind::Adt(d, _) = ft.kind() {
                            if d.did().is_local() && self.tcx.adt_destructor(d.did()).is_some() && self.tracked(&x) {
                                und!(self, "nested value with a Drop impl");
                            }
                        }
                        self.log_drop(st, x, ft, strict)?;
                    }
                }
            }
            Val::Seq(q) => {
                let it = self.opaque_item(ty).or_else(|| self.opaque_item(q.ty)).unwrap_or(ty);
                self.log_chunks(st, &q.ch, it, strict)?;
            }
            Val::Boxed(t, b) => {
                let it = t.boxed_ty().unwrap_or(t);
                self.log_drop(st, *b, it, false)?;
            }
        }
        Ok(())
    }
    pub fn log_chunks(&mut self, st: &mut State<'tcx>, ch: &[Chunk<Val<'tcx>>], it: Ty<'tcx>, strict: bool) -> R<()> {
        if let TyKind::Adt(d, _) = it.kind() {
            if d.is_manually_drop() || self.tcx.is_lang_item(d.did(), LangItem::MaybeUninit) {
                return Ok(());
            }
        }
        for c in normalise(ch) {
            match c {
                Chunk::One(x) => self.log_drop(st, x, it, strict)?,
                Chunk::Rep(n, t) => {
                    // log the template once, wrapped in the repetition
                    let mut tmp = State { drops: vec![], ..st.clone() };
                    for x in t {
                        self.log_drop(&mut tmp, x, it, strict)?;
                    }
                    let mut items = vec![];
                    for c in tmp.drops {
                        match c {
                            Chunk::One(x) => items.push(x),
                            Chunk::Rep(..) => und!(self, "nested repetition dropped"),
                        }
                    }
                    if !items.is_empty() {
                        st.drops.push(Chunk::Rep(n, items));
                    }
                }
            }
        }
        Ok(())
    }

    /// drop the value at a location, running user destructors
    pub fn drop_loc(&mut self, st: State<'tcx>, loc: &Loc, ty: Ty<'tcx>, strict: bool) -> R<Outs<'tcx>> {
        let mut st = st;
        let loc = st.fix_loc(loc);
        let unit = Val::unit(self.tcx);
        if let Some(P::Slice(a, b)) = loc.proj.last().cloned() {
            let mut base = loc.clone();
            base.proj.pop();
            let cons = st.cons.clone();
            let it = self.opaque_item(ty).unwrap_or(ty);
            let Val::Seq(mut q) = self.read(&mut st, &base)? else { und!(self, "drop of a slice of a non-sequence") };
            let i = self.cut(&mut q, &a, &cons)?;
            let j = self.cut(&mut q, &b, &cons)?;
            let mid: Vec<_> = q.ch[i..j].to_vec();
            let un: Vec<_> = mid
                .iter()
                .map(|c| match c {
                    Chunk::One(_) => Chunk::One(Val::Uninit),
                    Chunk::Rep(n, t) => Chunk::Rep(n.clone(), vec![Val::Uninit; t.len()]),
                })
                .collect();
            q.ch.splice(i..j, un);
            self.write(&mut st, &base, Val::Seq(q))?;
            self.log_chunks(&mut st, &mid, it, strict)?;
            return Ok(vec![(Out::Ret(unit), st)]);
        }
        let cur = self.read(&mut st, &loc)?;
        let mut states: Outs<'tcx> = vec![];
        let mut has = None;
        if let TyKind::Adt(d, _) = ty.kind() {
            if let Val::Adt(..) = &cur {
                if d.did().is_local() && !d.is_manually_drop() {
                    has = self.tcx.adt_destructor(d.did()).map(|x| x.did);
                } else if !d.did().is_local() && self.tracked(&cur) && self.opaque_item(ty).is_none() {
                    has = self.tcx.adt_destructor(d.did()).map(|x| x.did);
                }
            }
        }
        match has {
            Some(did) => {
                let TyKind::Adt(_, a) = ty.kind() else { unreachable!() };
                for (o, s) in self.call_def(st, did, a, vec![Val::Ref(loc.clone())], self.tcx.types.unit)? {
                    states.push((o, s));
                }
            }
            None => states.push((Out::Ret(unit.clone()), st)),
        }
        let mut out = vec![];
        for (o, mut s) in states {
            match o {
                Out::Ret(_) => {
                    let v = self.take(&mut s, &loc)?;
                    self.log_drop(&mut s, v, ty, strict)?;
                    out.push((Out::Ret(unit.clone()), s));
                }
                o => out.push((o, s)),
            }
        }
        Ok(out)
    }

    // ----------------------------------------------------------- statements

    fn assign(&mut self, f: &Fx<'tcx>, st: &mut State<'tcx>, p: &Place<'tcx>, v: Val<'tcx>) -> R<()> {
        // materialise aggregates that are initialised field by field
        let mut loc = Loc { frame: f.fi, local: p.local.as_u32(), proj: vec![] };
        if !p.projection.is_empty() {
            for (base, e) in p.iter_projections() {
                let bt = base.ty(f.body, self.tcx);
                let ty = self.mono(f.args, bt.ty);
                if let mir::ProjectionElem::Field(i, _) = e {
                    if self.transparent(ty) {
                        break;
                    }
                    if let Ok(Val::Uninit) = self.read(st, &loc) {
                        let var = bt.variant_index.map_or(0, |x| x.as_u32());
                        let n = self.nfields(ty, var);
                        if n > 0 && self.opaque_item(ty).is_none() {
                            self.write(st, &loc, Val::Adt(ty, var, vec![Val::Uninit; n]))?;
                        }
                    }
                    loc.proj.push(P::Field(i.as_u32()));
                } else {
                    break;
                }
            }
        }
        match self.place(f, st, p)? {
            Some(l) => self.write(st, &l, v),
            None => {
                if self.tracked(&v) {
                    und!(self, "tracked value stored through an unknown reference");
                }
                Ok(())
            }
        }
    }

    fn stmt(&mut self, f: &Fx<'tcx>, mut st: State<'tcx>, s: &mir::Statement<'tcx>) -> R<Vec<State<'tcx>>> {
        if f.local {
            self.span = s.source_info.span;
        }
        match &s.kind {
            StatementKind::Assign(pr) => {
                let (p, rv) = &**pr;
                let dty = self.place_ty(f, p);
                let mut out = vec![];
                for (mut s, v) in self.rvalue(f, st, rv, dty)? {
                    self.assign(f, &mut s, p, v)?;
                    out.push(s);
                }
                Ok(out)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let ty = self.place_ty(f, place);
                let Some(l) = self.place(f, &mut st, place)? else { und!(self, "set discriminant") };
                let v = match self.read(&mut st, &l)? {
                    Val::Adt(t, _, fs) => Val::Adt(t, variant_index.as_u32(), fs),
                    _ => Val::Adt(ty, variant_index.as_u32(), vec![]),
                };
                self.write(&mut st, &l, v)?;
                Ok(vec![st])
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                st.frames[f.fi as usize][l.as_usize()] = Val::Uninit;
                Ok(vec![st])
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => {
                    match self.operand(f, &mut st, o)? {
                        Val::Int(l) if l.konst() == Some(0) => Ok(vec![]),
                        _ => Ok(vec![st]),
                    }
                }
                _ => und!(self, "raw memory copy"),
            },
            _ => Ok(vec![st]),
        }
    }

    // -------------------------------------------------------------- control

    fn mk_fx(&self, body: &'tcx Body<'tcx>, args: GenericArgsRef<'tcx>, fi: usize, def: DefId, pre: bool) -> Fx<'tcx> {
        // loop heads: targets of back edges of a depth first search
        let mut heads = BTreeSet::new();
        let n = body.basic_blocks.len();
        let mut color = vec![0u8; n];
        let mut stack = vec![(mir::START_BLOCK, 0usize)];
        color[0] = 1;
        let succ: Vec<Vec<BasicBlock>> = body
            .basic_blocks
            .iter()
            .map(|b| match &b.terminator().kind {
                TerminatorKind::FalseEdge { real_target, .. } => vec![*real_target],
                k => k.successors().collect(),
            })
            .collect();
        while let Some((b, i)) = stack.pop() {
            if i < succ[b.as_usize()].len() {
                stack.push((b, i + 1));
                let t = succ[b.as_usize()][i];
                match color[t.as_usize()] {
                    0 => {
                        color[t.as_usize()] = 1;
                        stack.push((t, 0));
                    }
                    1 => {
                        heads.insert(t);
                    }
                    _ => {}
                }
            } else {
                color[b.as_usize()] = 2;
            }
        }
        Fx { body, args, heads, fi: fi as u32, local: def.is_local(), pre, def }
    }

    /// the values behind references to constants (`&N`, `&0`): they get slots after the locals
    fn promoteds(&mut self, f: &Fx<'tcx>) -> R<Vec<Val<'tcx>>> {
        let mut out = vec![];
        if !matches!(self.tcx.def_kind(f.def), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) || !self.tcx.is_mir_available(f.def) {
            return Ok(out);
        }
        for b in self.tcx.promoted_mir(f.def) {
            let mut to = None;
            let mut val = None;
            let stmts: Vec<_> = b.basic_blocks.iter().flat_map(|d| &d.statements).collect();
            for s in &stmts {
                if let StatementKind::Assign(x) = &s.kind {
                    match &x.1 {
                        Rvalue::Ref(_, _, q) if x.0.as_local() == Some(mir::RETURN_PLACE) => to = q.as_local(),
                        Rvalue::Use(Operand::Constant(c), ..) => val = Some((x.0.as_local(), c)),
                        _ => {}
                    }
                }
            }
            let zst = to.map(|l| self.mono(f.args, b.local_decls[l].ty)).filter(|t| self.is_zst(*t));
            let v = match val {
                _ if zst.is_some() => self.zst_val(zst.unwrap()),
                Some((l, c)) if to.is_some() && l == to && b.basic_blocks.len() == 1 => self.constant(f, c)?,
                _ => Val::Top,
            };
            out.push(if let Val::Top = v { Val::Uninit } else { v });
        }
        Ok(out)
    }

    pub fn run_body(&mut self, mut st: State<'tcx>, body: &'tcx Body<'tcx>, args: GenericArgsRef<'tcx>, argv: Vec<Val<'tcx>>, def: DefId, pre: bool) -> R<Outs<'tcx>> {
        self.depth += 1;
        if self.depth > 60 {
            self.depth -= 1;
            und!(self, "call depth exceeded (recursion) in {}", self.fname(def));
        }
        let fi = st.frames.len();
        let mut fr = vec![Val::Uninit; body.local_decls.len()];
        let mut argv = argv;
        if let Some(sp) = body.spread_arg {
            let k = sp.as_usize() - 1;
            let rest: Vec<_> = argv.split_off(k);
            let t = self.mono(args, body.local_decls[sp].ty);
            argv.push(Val::Adt(t, 0, rest));
        }
        if argv.len() != body.arg_count {
            self.depth -= 1;
            und!(self, "argument count for {}", self.fname(def));
        }
        for (i, a) in argv.into_iter().enumerate() {
            fr[i + 1] = a;
        }
        let f = self.mk_fx(body, args, fi, def, pre);
        fr.extend(self.promoteds(&f)?);
        st.frames.push(fr);
        let sp = self.span;
        let r = self.run_from(&f, mir::START_BLOCK, st, &[]);
        self.depth -= 1;
        let mut out = vec![];
        for d in r? {
            match d {
                Done::Ret(v, mut s) => {
                    s.frames.truncate(fi);
                    out.push((Out::Ret(v), s));
                }
                Done::Unwind(mut s) => {
                    s.frames.truncate(fi);
                    out.push((Out::Unwind, s));
                }
                Done::Panic(m, p, mut s) => {
                    s.frames.truncate(fi);
                    out.push((Out::Panic(m, p), s));
                }
                Done::Back(..) => unreachable!(),
            }
        }
        self.span = sp;
        Ok(out)
    }

    fn run_from(&mut self, f: &Fx<'tcx>, bb: BasicBlock, st: State<'tcx>, stops: &[BasicBlock]) -> R<Vec<Done<'tcx>>> {
        let mut out = vec![];
        let mut work = vec![(bb, st, true)];
        while let Some((bb, st, first)) = work.pop() {
            self.steps += 1;
            if self.steps > 400_000 {
                und!(self, "analysis budget exceeded");
            }
            if !first && stops.contains(&bb) {
                out.push(Done::Back(bb, st));
                continue;
            }
            if f.heads.contains(&bb) && !stops.contains(&bb) {
                let mut st2: Vec<BasicBlock> = stops.to_vec();
                st2.push(bb);
                let ds = self.do_loop(st, &mut |e: &mut Self, s| {
                    let mut ex = vec![];
                    let mut back = vec![];
                    for d in e.run_from(f, bb, s, &st2)? {
                        match d {
                            Done::Back(b, s) if b == bb => back.push(s),
                            d => ex.push(d),
                        }
                    }
                    Ok((ex, back))
                })?;
                out.extend(ds);
                continue;
            }
            let blk = &f.body.basic_blocks[bb];
            let mut sts = vec![st];
            for s in &blk.statements {
                let mut n = vec![];
                for st in sts {
                    n.extend(self.stmt(f, st, s)?);
                }
                sts = n;
            }
            for st in sts {
                self.term(f, st, bb, &mut work, &mut out)?;
            }
        }
        Ok(out)
    }

    fn unwind_to(&mut self, u: &UnwindAction, s: State<'tcx>, work: &mut Vec<(BasicBlock, State<'tcx>, bool)>, out: &mut Vec<Done<'tcx>>) {
        match u {
            UnwindAction::Continue => out.push(Done::Unwind(s)),
            UnwindAction::Cleanup(b) => work.push((*b, s, false)),
            UnwindAction::Terminate(_) => out.push(Done::Panic("unwinding aborts the process".into(), self.span, s)),
            UnwindAction::Unreachable => {}
        }
    }

    fn term(&mut self, f: &Fx<'tcx>, mut st: State<'tcx>, bb: BasicBlock, work: &mut Vec<(BasicBlock, State<'tcx>, bool)>, out: &mut Vec<Done<'tcx>>) -> R<()> {
        let t = f.body.basic_blocks[bb].terminator();
        if f.local {
            self.span = t.source_info.span;
        }
        match &t.kind {
            TerminatorKind::Goto { target, .. } => work.push((*target, st, false)),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                work.push((*real_target, st, false))
            }
            TerminatorKind::Return => {
                let v = std::mem::replace(&mut st.frames[f.fi as usize][0], Val::Uninit);
                let rt = self.mono(f.args, f.body.local_decls[mir::RETURN_PLACE].ty);
                let v = match v {
                    Val::Uninit if self.is_zst(rt) => self.zst_val(rt),
                    v => v,
                };
                if self.uninit_in(&v, rt) {
                    ub!(self, "uninitialised memory returned from {}", self.fname(f.def));
                }
                out.push(Done::Ret(v, st));
            }
            TerminatorKind::UnwindResume => out.push(Done::Unwind(st)),
            TerminatorKind::UnwindTerminate(_) => {
                out.push(Done::Panic("unwinding aborts the process".into(), self.span, st))
            }
            TerminatorKind::Unreachable => {}
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(f, &mut st, discr)?;
                let Some(st) = Self::in_range(&st, &v, discr.ty(f.body, self.tcx)) else { return Ok(()) };
                let v = st.fix(&v);
                match v {
                    Val::Int(l) => {
                        let mut rest = vec![st];
                        for (val, tgt) in targets.iter() {
                            // values are stored unsigned; small negative discriminants are not used here
                            let d = l.addk(-(val as i128));
                            let mut next = vec![];
                            for s in rest {
                                let d = s.resolve(&d);
                                if let Some(s2) = s.assume_eq(&d) {
                                    work.push((tgt, s2, false));
                                }
                                if d.konst() == Some(0) {
                                    continue;
                                }
                                let a = s.assume(&d.addk(-1));
                                let b = s.assume(&d.neg().addk(-1));
                                next.extend(a);
                                next.extend(b);
                            }
                            rest = next;
                        }
                        for s in rest {
                            work.push((targets.otherwise(), s, false));
                        }
                    }
                    _ => {
                        for tgt in targets.all_targets() {
                            work.push((*tgt, st.clone(), false));
                        }
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let v = self.operand(f, &mut st, cond)?;
                let (may_pass, may_fail) = match v {
                    Val::Int(l) => match l.konst() {
                        Some(c) => ((c != 0) == *expected, (c != 0) != *expected),
                        None => (true, true),
                    },
                    _ => (true, true),
                };
                let _ = unwind;
                if may_fail && !matches!(**msg, mir::AssertKind::MisalignedPointerDereference { .. } | mir::AssertKind::NullPointerDereference) {
                    let n = format!("{:?}", msg);
                    let n = n.split('(').next().unwrap_or("assertion").to_string();
                    out.push(Done::Panic(format!("failing runtime check ({n})"), self.span, st.clone()));
                }
                if may_pass {
                    work.push((*target, st, false));
                }
            }
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = self.place_ty(f, place);
                match self.place(f, &mut st, place)? {
                    None => work.push((*target, st, false)),
                    Some(l) => {
                        // what a reference or pointer leads to cannot have been moved out of as
                        // far as the compiler knows: there is no drop flag that would save it
                        let strict = place.iter_projections().any(|(base, e)| {
                            matches!(e, mir::ProjectionElem::Deref) && !self.mono(f.args, base.ty(f.body, self.tcx).ty).is_box()
                        });
                        for (o, s) in self.drop_loc(st, &l, ty, strict)? {
                            match o {
                                Out::Ret(_) => work.push((*target, s, false)),
                                Out::Unwind => self.unwind_to(unwind, s, work, out),
                                Out::Panic(m, p) => out.push(Done::Panic(m, p, s)),
                            }
                        }
                    }
                }
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = self.mono(f.args, func.ty(f.body, self.tcx));
                let mut vs = vec![];
                for a in args.iter() {
                    vs.push(self.operand(f, &mut st, &a.node)?);
                }
                let dty = self.place_ty(f, destination);
                let outs = match fty.kind() {
                    TyKind::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        self.call_fn(st, *d, a, vs, dty)?
                    }
                    _ => {
                        let c = self.operand(f, &mut st, func)?;
                        self.call_value(st, c, vs, dty)?
                    }
                };
                let span = t.source_info.span;
                for (o, mut s) in outs {
                    if f.local {
                        self.span = span;
                    }
                    match o {
                        Out::Ret(v) => match target {
                            Some(tg) => {
                                self.assign(f, &mut s, destination, v)?;
                                work.push((*tg, s, false));
                            }
                            None => und!(self, "diverging call returned"),
                        },
                        Out::Unwind => self.unwind_to(unwind, s, work, out),
                        Out::Panic(m, p) => out.push(Done::Panic(m, p, s)),
                    }
                }
            }
            k => und!(self, "terminator {k:?}"),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- loops

    fn merge_backs(&self, v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        let mut out: Vec<State<'tcx>> = vec![];
        'n: for s in v {
            for o in out.iter_mut() {
                if o.frames == s.frames && o.trace == s.trace && o.drops == s.drops && o.eqs == s.eqs {
                    o.facts.retain(|f| s.facts.contains(f));
                    let c = std::mem::take(&mut o.cons.v);
                    let oc = Cons { v: c.clone() };
                    let mut k = Cons::default();
                    for x in c.iter().filter(|x| s.cons.implied(x)) {
                        k.push(x.clone());
                    }
                    for x in s.cons.v.iter().filter(|x| oc.implied(x)) {
                        k.push(x.clone());
                    }
                    o.cons = k;
                    continue 'n;
                }
            }
            out.push(s);
        }
        out
    }

    pub fn do_loop(&mut self, st: State<'tcx>, step: &mut dyn FnMut(&mut Self, State<'tcx>) -> R<(Vec<Done<'tcx>>, Vec<State<'tcx>>)>) -> R<Vec<Done<'tcx>>> {
        let head_span = self.span;
        let mut s = vec![st];
        let mut exits: Vec<Vec<Done<'tcx>>> = vec![];
        let mut why = String::new();
        let mut prob: Option<Problem> = None;
        for i in 0..14 {
            let (e, backs) = step(self, s[i].clone())?;
            exits.push(e);
            let backs = self.merge_backs(backs);
            if backs.is_empty() {
                return Ok(exits.into_iter().flatten().collect());
            }
            if backs.len() > 1 {
                // diverging iterations: follow each of them, they must end soon
                let mut out: Vec<Done<'tcx>> = exits.into_iter().flatten().collect();
                let mut work = backs;
                for _ in 0..64 {
                    let Some(x) = work.pop() else { return Ok(out) };
                    let (e, b) = step(self, x)?;
                    out.extend(e);
                    work.extend(self.merge_backs(b));
                }
                let first = s.swap_remove(0);
                if let Some(r) = self.phases(first, step)? {
                    return Ok(r);
                }
                und!(self, "loop iterations continue in several different states");
            }
            s.push(backs.into_iter().next().unwrap());
            if s.len() >= 3 && s.len() <= 7 {
                let b = s.len() - 3;
                let mut w = String::new();
                match self.try_gen(&s[b..b + 3], step, &mut w, None) {
                    Ok(Some(ex)) => {
                        self.span = head_span;
                        let mut out: Vec<_> = exits.into_iter().take(b).flatten().collect();
                        out.extend(ex);
                        return Ok(out);
                    }
                    Ok(None) => {
                        if self.debug {
                            eprintln!("peel {b}: {w}");
                        }
                        why = format!("{why} [peel {b}: {w}]")
                    }
                    Err(p) => {
                        if self.debug {
                            eprintln!("peel {b}: {}\n{:?}\n{:?}\n{:?}\n{:?}", p.msg, s[b].frames, s[b+1].frames, s[b+2].frames, s[b+2].cons);
                        }
                        prob = Some(p)
                    }
                }
            }
        }
        if let Some(p) = prob {
            return Err(p);
        }
        self.span = head_span;
        und!(self, "no inductive invariant found for loop{why}");
    }

    /// A loop in phases: iterations of one kind follow each other until one of
    /// another kind begins the next phase, such as once an error has been
    /// stored. Every iteration that is not covered by the invariant of its
    /// phase is where a loop of its own starts.
    fn phases(&mut self, st: State<'tcx>, step: &mut dyn FnMut(&mut Self, State<'tcx>) -> R<(Vec<Done<'tcx>>, Vec<State<'tcx>>)>) -> R<Option<Vec<Done<'tcx>>>> {
        if self.phase >= 2 {
            return Ok(None);
        }
        self.phase += 1;
        let mut r = Ok(None);
        let before = self.nonterm;
        let mut unbounded = None;
        for pick in 0..3 {
            self.nonterm = before;
            r = self.phase_of(&st, step, pick);
            match r {
                Ok(Some(_)) if self.nonterm == before => break,
                Ok(Some(x)) => {
                    unbounded = Some((x, self.nonterm));
                    r = Ok(None);
                }
                _ => {}
            }
        }
        if !matches!(r, Ok(Some(_))) {
            self.nonterm = before;
            if let Some((x, n)) = unbounded {
                self.nonterm = n;
                r = Ok(Some(x));
            }
        }
        self.phase -= 1;
        match r {
            Ok(r) => Ok(r),
            // whether the phases can be told apart says nothing about the code
            Err(_) => Ok(None),
        }
    }
    fn phase_of(&mut self, st: &State<'tcx>, step: &mut dyn FnMut(&mut Self, State<'tcx>) -> R<(Vec<Done<'tcx>>, Vec<State<'tcx>>)>, pick: usize) -> R<Option<Vec<Done<'tcx>>>> {
        let span = self.span;
        let mut s = vec![st.clone()];
        let mut out = vec![];
        let mut enter: Vec<State<'tcx>> = vec![];
        for _ in 0..6 {
            let (e, backs) = step(self, s.last().unwrap().clone())?;
            out.extend(e);
            let mut backs = self.merge_backs(backs);
            if pick >= backs.len() {
                return Ok(None);
            }
            let main = backs.remove(pick);
            enter.extend(backs);
            s.push(main);
            if s.len() < 3 {
                continue;
            }
            let b = s.len() - 3;
            let mut other = vec![];
            let mut w = String::new();
            if let Ok(Some(ex)) = self.try_gen(&s[b..], step, &mut w, Some(&mut other)) {
                // iterates before the last three have been left behind, and the
                // invariant starts over from the first of these
                out.extend(ex);
                enter.extend(other);
                for x in self.merge_backs(enter) {
                    self.span = span;
                    out.extend(self.do_loop(x, step)?);
                }
                self.span = span;
                return Ok(Some(out));
            }
            if self.debug {
                eprintln!("phase {pick}: {w}");
            }
        }
        Ok(None)
    }

    fn try_gen(&mut self, s: &[State<'tcx>], step: &mut dyn FnMut(&mut Self, State<'tcx>) -> R<(Vec<Done<'tcx>>, Vec<State<'tcx>>)>, why: &mut String, mut other: Option<&mut Vec<State<'tcx>>>) -> R<Option<Vec<Done<'tcx>>>> {
        let k = self.fresh();
        let Some(mut g) = generalise(&s[0], &s[1], &s[2], k) else {
            *why = "states do not generalise".into();
            return Ok(None);
        };
        let g0 = g.subst(k, &Lin::k(0));
        let g0 = State { eqs: s[0].eqs.clone(), ..g0 };
        if let Err(e) = state_leq(&s[0], &g0) {
            *why = format!("base: {e}");
            return Ok(None);
        }
        for _ in 0..6 {
            let (ex, backs) = step(self, g.clone())?;
            let mut next = g.subst(k, &Lin::sym(k).addk(1));
            next.eqs = g.eqs.clone();
            let mut bad: BTreeSet<usize> = BTreeSet::new();
            // substitution may drop trivially true constraints; keep indices aligned
            next.cons = Cons { v: g.cons.v.iter().map(|c| c.subst(k, &Lin::sym(k).addk(1))).collect() };
            if let Some(o) = other.as_mut() {
                o.clear();
            }
            for b in self.merge_backs(backs) {
                match state_leq(&b, &next) {
                    Ok(v) => bad.extend(v),
                    Err(e) => {
                        if let Some(o) = other.as_mut() {
                            o.push(b);
                            continue;
                        }
                        *why = e;
                        return Ok(None);
                    }
                }
            }
            if bad.is_empty() {
                let bounded = g.cons.v.iter().any(|c| c.t.get(&k).map_or(false, |x| *x < 0));
                if !bounded && self.debug {
                    eprintln!("unbounded {k}: {:?} {:?}", g.cons.v, g.frames);
                }
                if !bounded && self.nonterm.is_none() {
                    self.nonterm = Some(self.span);
                }
                self.loops.push(format!("invariant over n{k}: {:?}; trace {:?}", g.cons.v, g.trace));
                return Ok(Some(ex));
            }
            let mut i = 0;
            g.cons.v.retain(|_| {
                i += 1;
                !bad.contains(&(i - 1))
            });
        }
        *why = "constraints not inductive".into();
        Ok(None)
    }

    // ---------------------------------------------------------------- calls

    pub fn call_def(&mut self, st: State<'tcx>, d: DefId, a: GenericArgsRef<'tcx>, vs: Vec<Val<'tcx>>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let _ = dty;
        if let Some(l) = d.as_local() {
            if let Some(b) = self.bodies.get(&l).copied() {
                self.inlined.insert(self.fname(d));
                return self.run_body(st, b, a, vs, d, true);
            }
        }
        if !self.tcx.is_mir_available(d) {
            if vs.iter().any(|v| self.tracked(v)) {
                und!(self, "call of {} whose body is not available", self.fname(d));
            }
            return Ok(vec![(Out::Ret(Val::Top), st)]);
        }
        self.inlined.insert(self.fname(d));
        let b = self.tcx.instance_mir(ty::InstanceKind::Item(d));
        self.run_body(st, b, a, vs, d, false)
    }

    fn untuple(&mut self, v: Val<'tcx>) -> R<Vec<Val<'tcx>>> {
        let mut v = v;
        self.expand(&mut v, &[]);
        match v {
            Val::Adt(_, _, fs) => Ok(fs),
            v => und!(self, "argument tuple {v:?}"),
        }
    }

    pub fn call_fn(&mut self, st: State<'tcx>, d: DefId, a: GenericArgsRef<'tcx>, vs: Vec<Val<'tcx>>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let tcx = self.tcx;
        let name = self.fname(d);
        if self.trace {
            eprintln!("{:1$}call {name} {a:?} {vs:?}", "", self.depth as usize);
        }
        // constructors
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let TyKind::Adt(ad, _) = dty.kind() else { und!(self, "constructor of {dty:?}") };
            let var = match tcx.def_kind(tcx.parent(d)) {
                DefKind::Variant => ad.variant_index_with_ctor_id(d).as_u32(),
                _ => 0,
            };
            return Ok(vec![(Out::Ret(Val::Adt(dty, var, vs)), st)]);
        }
        // calls of callable values
        if let Some(tr) = tcx.trait_of_assoc(d) {
            if tcx.fn_trait_kind_from_def_id(tr).is_some() {
                let mut it = vs.into_iter();
                let callee = it.next().unwrap();
                let tup = it.next().unwrap();
                let args = self.untuple(tup)?;
                return self.call_value(st, callee, args, dty);
            }
            if let Some((fm, tfm)) = self.funcmap {
                if tr == fm || tr == tfm {
                    return self.call_funcmap(st, d, tr == tfm, a, vs, dty);
                }
            }
        }
        // diverging functions
        let sig = tcx.fn_sig(d).skip_binder();
        if sig.output().skip_binder().is_never() && !d.is_local() {
            let n = name.rsplit("::").next().unwrap_or(&name).to_string();
            return Ok(vec![(Out::Panic(format!("call of diverging function {n}"), self.span), st)]);
        }
        if let Some(i) = tcx.intrinsic(d) {
            return self.intrinsic(st, i.name.as_str(), a, vs, dty);
        }
        if let Some(r) = self.prim(st.clone(), &name, a, &vs, dty)? {
            self.prims.insert(name);
            return Ok(r);
        }
        match Instance::try_resolve(tcx, self.env, d, a) {
            Ok(Some(i)) => match i.def {
                ty::InstanceKind::Item(id) => {
                    if id != d {
                        let n2 = self.fname(id);
                        if let Some(r) = self.prim(st.clone(), &n2, i.args, &vs, dty)? {
                            self.prims.insert(n2);
                            return Ok(r);
                        }
                    }
                    // an override for an opaque base iterator: use the provided
                    // method of the trait, whose only primitive is `next`
                    if let (Some(tr), true) = (tcx.trait_of_assoc(d), id != d) {
                        let p = self.path(tr);
                        if (p.ends_with("::Iterator") || p.ends_with("::DoubleEndedIterator"))
                            && self.opaque_item(a.type_at(0)).is_some()
                        {
                            if tcx.is_mir_available(d) && tcx.defaultness(d).has_value() {
                                return self.call_def(st, d, a, vs, dty);
                            }
                        }
                    }
                    self.call_def(st, id, i.args, vs, dty)
                }
                ty::InstanceKind::Intrinsic(id) => self.intrinsic(st, tcx.item_name(id).as_str(), a, vs, dty),
                k => {
                    if vs.iter().any(|v| self.tracked(v)) {
                        und!(self, "call of {name} via {k:?}");
                    }
                    Ok(vec![(Out::Ret(Val::Top), st)])
                }
            },
            _ => {
                if vs.iter().any(|v| self.tracked(v)) {
                    und!(self, "call of unknown function {name} with tracked arguments");
                }
                Ok(vec![(Out::Ret(Val::Top), st)])
            }
        }
    }

    pub fn call_value(&mut self, mut st: State<'tcx>, callee: Val<'tcx>, args: Vec<Val<'tcx>>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let mut callee = callee;
        let mut at: Option<Loc> = None;
        for _ in 0..16 {
            if let Val::Ref(l) = &callee {
                let l = l.clone();
                callee = self.read(&mut st, &l)?;
                at = Some(l);
                continue;
            }
            break;
        }
        match callee {
            Val::Fn(t) => match t.kind() {
                TyKind::FnDef(d, a) => {
                    let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                    self.call_fn(st, *d, a, args, dty)
                }
                _ => und!(self, "call of {t:?}"),
            },
            Val::Boxed(_, b) => {
                // Box<dyn FnMut>
                let fi = st.frames.len();
                st.frames.push(vec![*b]);
                let l = Loc { frame: fi as u32, local: 0, proj: vec![] };
                let r = self.call_value(st, Val::Ref(l), args, dty)?;
                Ok(r.into_iter()
                    .map(|(o, mut s)| {
                        s.frames.truncate(fi);
                        (o, s)
                    })
                    .collect())
            }
            Val::Adt(t, ..) if matches!(t.kind(), TyKind::Closure(..)) => {
                let TyKind::Closure(d, a) = t.kind() else { unreachable!() };
                let (body, pre) = match d.as_local().and_then(|l| self.bodies.get(&l).copied()) {
                    Some(b) => (b, true),
                    None => (self.tcx.instance_mir(ty::InstanceKind::Item(*d)), false),
                };
                let byref = body.local_decls[mir::Local::from_u32(1)].ty.is_ref();
                let fi = st.frames.len();
                let slf = if byref {
                    match at {
                        Some(l) => Val::Ref(l),
                        None => {
                            st.frames.push(vec![callee.clone()]);
                            Val::Ref(Loc { frame: fi as u32, local: 0, proj: vec![] })
                        }
                    }
                } else {
                    if let Some(l) = &at {
                        let l = l.clone();
                        self.write(&mut st, &l, Val::Uninit)?;
                    }
                    callee.clone()
                };
                let pseudo = st.frames.len() > fi;
                let mut argv = vec![slf];
                argv.extend(args);
                let r = self.run_body(st, body, a, argv, *d, pre)?;
                let mut out = vec![];
                for (o, mut s) in r {
                    if pseudo {
                        let v = std::mem::replace(&mut s.frames[fi][0], Val::Uninit);
                        s.frames.truncate(fi);
                        self.log_drop(&mut s, v, t, false)?;
                    }
                    out.push((o, s));
                }
                Ok(out)
            }
            Val::Sym(t, _) if *t == Term::Root(1) => {
                if args.len() != 1 {
                    und!(self, "call of the closure with {} arguments", args.len());
                }
                let arg = self.canon(&args[0]);
                self.event_call(st, arg, dty)
            }
            // an unknown function value carries nothing tracked, like an unknown function
            Val::Top if !args.iter().any(|v| self.tracked(v)) => Ok(vec![(Out::Ret(Val::Top), st)]),
            v => und!(self, "call of {v:?}"),
        }
    }

    fn event_call(&mut self, st: State<'tcx>, arg: Val<'tcx>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let arg = Rc::new(arg);
        let mut out = vec![];
        let mut ok = st.clone();
        ok.trace.push(Chunk::One(Ev::Call((*arg).clone(), Oc::Ok)));
        if self.mode.fallible {
            let TyKind::Adt(_, a) = dty.kind() else { und!(self, "closure result {dty:?}") };
            let (bt, et) = (a.type_at(0), a.type_at(1));
            let v = self.mk_sym(Rc::new(Term::Ret(arg.clone())), bt);
            out.push((Out::Ret(Val::Adt(dty, self.variant_named(dty, "Ok"), vec![v])), ok));
            let mut er = st.clone();
            er.trace.push(Chunk::One(Ev::Call((*arg).clone(), Oc::Err)));
            let v = self.mk_sym(Rc::new(Term::Err(arg.clone())), et);
            out.push((Out::Ret(Val::Adt(dty, self.variant_named(dty, "Err"), vec![v])), er));
        } else {
            let v = self.mk_sym(Rc::new(Term::Ret(arg.clone())), dty);
            out.push((Out::Ret(v), ok));
        }
        if self.mode.unwind {
            let mut u = st;
            u.trace.push(Chunk::One(Ev::Call((*arg).clone(), Oc::Unwind)));
            out.push((Out::Unwind, u));
        }
        Ok(out)
    }

    /// a call of one of the mapping traits' methods
    fn call_funcmap(&mut self, st: State<'tcx>, d: DefId, try_: bool, a: GenericArgsRef<'tcx>, vs: Vec<Val<'tcx>>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let tcx = self.tcx;
        if !self.mode.derive {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, a) {
                if let ty::InstanceKind::Item(id) = i.def {
                    // a provided method on an unknown type resolves to itself
                    if id != d || !matches!(a.type_at(0).kind(), TyKind::Param(_)) {
                        return self.call_def(st, id, i.args, vs, dty);
                    }
                }
            }
        }
        let mut st = st;
        let mut it = vs.into_iter();
        let slf = it.next().unwrap();
        let f = it.next().unwrap();
        let slf = self.canon(&slf);
        if self.mode.derive && matches!(a.type_at(0).kind(), TyKind::Adt(d, _) if d.is_phantom_data()) {
            // nothing to map
            let v = if try_ {
                let TyKind::Adt(_, ra) = dty.kind() else { und!(self, "mapping result {dty:?}") };
                let o = self.norm_ty(ra.type_at(0));
                Val::Adt(dty, self.variant_named(dty, "Ok"), vec![Val::Adt(o, 0, vec![])])
            } else {
                Val::Adt(self.norm_ty(dty), 0, vec![])
            };
            return Ok(vec![(Out::Ret(v), st)]);
        }
        let err = try_.then(|| a.types().nth(4)).flatten();
        let key = FKey { ty: a.type_at(0), marker: a.type_at(3), fallible: try_, arg: slf };
        // remember the closure with the references it holds resolved
        self.fmaps.push(FmapSite { key: key.clone(), a: a.type_at(1), b: a.type_at(2), closure: f.clone(), err, span: self.span });
        let f = self.deep(&mut st, f)?;
        let last = self.fmaps.len() - 1;
        self.fmaps[last].closure = f;
        let mut out = vec![];
        let k = Rc::new(key.clone());
        let mut ok = st.clone();
        ok.trace.push(Chunk::One(Ev::FMap(key.clone(), Oc::Ok)));
        if try_ {
            let TyKind::Adt(_, ra) = dty.kind() else { und!(self, "mapping result {dty:?}") };
            let (bt, et) = (ra.type_at(0), ra.type_at(1));
            let v = self.mk_sym(Rc::new(Term::FRet(k.clone())), bt);
            out.push((Out::Ret(Val::Adt(dty, self.variant_named(dty, "Ok"), vec![v])), ok));
            let mut er = st;
            er.trace.push(Chunk::One(Ev::FMap(key, Oc::Err)));
            let v = self.mk_sym(Rc::new(Term::FErr(k)), et);
            out.push((Out::Ret(Val::Adt(dty, self.variant_named(dty, "Err"), vec![v])), er));
        } else {
            let v = self.mk_sym(Rc::new(Term::FRet(k)), dty);
            out.push((Out::Ret(v), ok));
        }
        Ok(out)
    }

    /// replace references inside a callable by the values they point to
    fn deep(&mut self, st: &mut State<'tcx>, v: Val<'tcx>) -> R<Val<'tcx>> {
        Ok(match v {
            Val::Ref(l) => {
                let x = self.read(st, &l)?;
                self.deep(st, x)?
            }
            Val::Adt(t, k, fs) => {
                let mut o = vec![];
                for f in fs {
                    o.push(self.deep(st, f)?);
                }
                Val::Adt(t, k, o)
            }
            v => v,
        })
    }
}
