//! Rules about the bodies of the macro crate: errors that get lost (C19), sites that may panic (C20),
//! sources of nondeterminism (C21).
use crate::panics::{may_panic, tail};
use crate::report::Rec;
use rustc_hir::def::DefKind;
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};

type Bodies<'tcx> = HashMap<LocalDefId, &'tcx Body<'tcx>>;

pub struct Mac<'tcx, 'a> {
    pub tcx: TyCtxt<'tcx>,
    pub bodies: &'a Bodies<'tcx>,
}

/// where a value comes from
#[derive(Clone, Debug)]
pub enum Src<'tcx> {
    Const(Const<'tcx>),
    Call(BasicBlock),
    Param(Local),
    Assign(Location),
    Other,
}

pub struct Defs {
    pub defs: IndexVec<Local, Vec<Def>>,
}
#[derive(Clone, Copy)]
pub enum Def {
    Call(BasicBlock),
    Assign(Location),
}

pub fn defs(b: &Body<'_>) -> Defs {
    let mut d: IndexVec<Local, Vec<Def>> = IndexVec::from_elem_n(vec![], b.local_decls.len());
    for (bb, data) in b.basic_blocks.iter_enumerated() {
        for (i, s) in data.statements.iter().enumerate() {
            if let StatementKind::Assign(x) = &s.kind {
                if x.0.projection.is_empty() {
                    d[x.0.local].push(Def::Assign(Location { block: bb, statement_index: i }));
                }
            }
        }
        if let TerminatorKind::Call { destination, .. } = &data.terminator().kind {
            if destination.projection.is_empty() {
                d[destination.local].push(Def::Call(bb));
            }
        }
    }
    Defs { defs: d }
}

pub fn rvalue<'b, 'tcx>(b: &'b Body<'tcx>, l: Location) -> Option<&'b Rvalue<'tcx>> {
    match &b.basic_blocks[l.block].statements[l.statement_index].kind {
        StatementKind::Assign(x) => Some(&x.1),
        _ => None,
    }
}

/// follows copies, moves, references and casts back to where a value was made
pub fn src<'tcx>(b: &Body<'tcx>, d: &Defs, o: &Operand<'tcx>) -> Src<'tcx> {
    match o {
        Operand::Constant(c) => Src::Const(c.const_),
        Operand::Copy(p) | Operand::Move(p) => src_place(b, d, *p, 0),
        _ => Src::Other,
    }
}
pub fn src_place<'tcx>(b: &Body<'tcx>, d: &Defs, p: Place<'tcx>, depth: usize) -> Src<'tcx> {
    if depth > 40 || p.projection.iter().any(|e| !matches!(e, ProjectionElem::Deref)) {
        return Src::Other;
    }
    let l = p.local;
    if d.defs[l].is_empty() && l.index() >= 1 && l.index() <= b.arg_count {
        return Src::Param(l);
    }
    let [one] = &d.defs[l][..] else { return Src::Other };
    match one {
        Def::Call(bb) => Src::Call(*bb),
        Def::Assign(loc) => match rvalue(b, *loc) {
            Some(Rvalue::Use(o, ..)) | Some(Rvalue::Cast(_, o, _)) => match o {
                Operand::Constant(c) => Src::Const(c.const_),
                Operand::Copy(p) | Operand::Move(p) => src_place(b, d, *p, depth + 1),
                _ => Src::Other,
            },
            Some(Rvalue::Ref(_, _, p)) => src_place(b, d, *p, depth + 1),
            Some(Rvalue::CopyForDeref(p)) => src_place(b, d, *p, depth + 1),
            Some(_) => Src::Assign(*loc),
            None => Src::Other,
        },
    }
}
/// the local a place is part of, references and projections removed
pub fn base<'tcx>(b: &Body<'tcx>, d: &Defs, p: Place<'tcx>) -> Local {
    let mut l = p.local;
    for _ in 0..40 {
        let [Def::Assign(loc)] = &d.defs[l][..] else {
            // an accessor such as `iter`, `deref`, `as_ref`: what it looks into
            if let [Def::Call(bb)] = &d.defs[l][..] {
                if let TerminatorKind::Call { args, func, .. } = &b.basic_blocks[*bb].terminator().kind {
                    let acc = func.const_fn_def().is_some() && args.len() == 1 && matches!(b.local_decls[l].ty.kind(), TyKind::Ref(..));
                    if let (true, Some(q)) = (acc, args.first().and_then(|a| a.node.place())) {
                        l = q.local;
                        continue;
                    }
                }
            }
            return l;
        };
        match rvalue(b, *loc) {
            Some(Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..)) => l = q.local,
            Some(Rvalue::Ref(_, _, q)) | Some(Rvalue::CopyForDeref(q)) => l = q.local,
            _ => return l,
        }
    }
    l
}

pub fn callee<'tcx>(b: &Body<'tcx>, tcx: TyCtxt<'tcx>, func: &Operand<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
    match func.ty(b, tcx).kind() {
        TyKind::FnDef(f, a) => Some((*f, a.skip_binder())),
        _ => None,
    }
}

/// the blocks control may go to next; edges that exist for the borrow checker only are left out
pub fn succ(b: &Body<'_>, bb: BasicBlock) -> Vec<BasicBlock> {
    match &b.basic_blocks[bb].terminator().kind {
        TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => vec![*real_target],
        t => t.successors().collect(),
    }
}

/// blocks reachable when the given edges are removed
pub fn reach(b: &Body<'_>, cut: &HashSet<(BasicBlock, BasicBlock)>) -> HashSet<BasicBlock> {
    let mut seen = HashSet::new();
    let mut todo = vec![START_BLOCK];
    while let Some(x) = todo.pop() {
        if !seen.insert(x) {
            continue;
        }
        for s in succ(b, x) {
            if !cut.contains(&(x, s)) && !b.basic_blocks[s].is_cleanup {
                todo.push(s);
            }
        }
    }
    seen
}

fn const_str<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, c: Const<'tcx>) -> Option<String> {
    let v = c.eval(tcx, env, rustc_span::DUMMY_SP).ok()?;
    let TyKind::Ref(_, t, _) = c.ty().kind() else { return None };
    match t.kind() {
        TyKind::Str => String::from_utf8(v.try_get_slice_bytes_for_diagnostics(tcx)?.to_vec()).ok(),
        TyKind::Ref(..) => None,
        _ => None,
    }
}
fn const_bytes<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, c: Const<'tcx>) -> Option<Vec<u8>> {
    // &[u8; N]
    let v = c.eval(tcx, env, rustc_span::DUMMY_SP).ok()?;
    let TyKind::Ref(_, t, _) = c.ty().kind() else { return None };
    let TyKind::Array(_, n) = t.kind() else { return None };
    let n = n.try_to_target_usize(tcx)? as usize;
    let (alloc, off) = match v {
        ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
            let (prov, off) = p.prov_and_relative_offset();
            (prov.alloc_id(), off.bytes_usize())
        }
        ConstValue::Indirect { alloc_id, offset } => {
            let a = tcx.global_alloc(alloc_id).unwrap_memory();
            let p = a.inner().provenance().ptrs().get(&offset)?;
            let at = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..offset.bytes_usize() + 8);
            (p.alloc_id(), u64::from_le_bytes(at.try_into().ok()?) as usize)
        }
        _ => return None,
    };
    let a = tcx.global_alloc(alloc).unwrap_memory();
    Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec())
}
fn const_char<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, c: Const<'tcx>) -> Option<char> {
    if !c.ty().is_char() {
        return None;
    }
    char::from_u32(c.try_eval_scalar_int(tcx, env)?.to_u32())
}

fn ident_like(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c == '_' || c.is_alphabetic()) && s.chars().all(|c| c == '_' || c.is_alphanumeric())
}

impl<'tcx> Mac<'tcx, '_> {
    pub fn env(&self, b: &Body<'tcx>) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, self.tcx.typeck_root_def_id(b.source.def_id()))
    }
    pub fn name(&self, k: LocalDefId) -> String {
        self.tcx.def_path_str(k.to_def_id())
    }
    /// generated by `#[derive(..)]` on the crate's own types
    pub fn derived(&self, k: LocalDefId) -> bool {
        let mut d = self.tcx.typeck_root_def_id(k.to_def_id());
        loop {
            if self.tcx.is_automatically_derived(d) {
                return true;
            }
            match self.tcx.opt_parent(d) {
                Some(p) if !p.is_crate_root() => d = p,
                _ => return false,
            }
        }
    }
    pub fn fns(&self) -> Vec<(LocalDefId, &'tcx Body<'tcx>)> {
        let mut ks: Vec<_> = self.bodies.iter().map(|(k, b)| (*k, *b)).collect();
        ks.sort_by_key(|k| self.tcx.def_path_str(k.0.to_def_id()));
        ks.retain(|k| !self.derived(k.0));
        ks
    }
    pub fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    // ------------------------------------------------------------ C20

    pub fn ob(&self, prop: &str, k: LocalDefId, at: Span, what: &str, ok: Result<String, String>) {
        let (v, why) = match ok {
            Ok(w) => ("ok", w),
            Err(w) => ("violation", w),
        };
        Rec::new("ob").s("prop", prop).s("fn", self.name(k)).s("at", crate::builtin::loc_str(self.tcx, at)).s("what", what).s("status", v).s("why", why).emit();
    }

    pub fn panics(&self) {
        for (k, b) in self.fns() {
            let d = defs(b);
            let inf = self.infinite_cuts(b, &d);
            for (bb, data) in b.basic_blocks.iter_enumerated() {
                if data.is_cleanup {
                    continue;
                }
                let t = data.terminator();
                let at = t.source_info.span;
                match &t.kind {
                    TerminatorKind::Assert { msg, .. } => {
                        let what = self.assert_name(msg);
                        self.ob("C20", k, at, &what, self.assert_ok(b, &d, msg, bb));
                    }
                    TerminatorKind::Call { func, args, target, .. } => {
                        let Some((f, ga)) = callee(b, self.tcx, func) else { continue };
                        let path = self.path(f);
                        let (p, l) = tail(&path);
                        let what = format!("{p}::{l}");
                        if target.is_none() {
                            self.ob("C20", k, at, &what, self.diverging_ok(k, b, bb, &inf));
                        } else if let Some(r) = self.site(k, b, &d, bb, &path, (&p, &l), ga, args, &inf) {
                            self.ob("C20", k, at, &what, r);
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn assert_name(&self, m: &AssertKind<Operand<'tcx>>) -> String {
        match m {
            AssertKind::BoundsCheck { .. } => "index within bounds".into(),
            AssertKind::Overflow(op, ..) => format!("{op:?} does not overflow"),
            AssertKind::OverflowNeg(_) => "negation does not overflow".into(),
            AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "divisor is not zero".into(),
            m => format!("{m:?}").split('(').next().unwrap_or("").to_string(),
        }
    }

    /// a counter: its sum with something small cannot leave the type
    fn small_sum(&self, b: &Body<'tcx>, d: &Defs, l: &Operand<'tcx>, r: &Operand<'tcx>) -> bool {
        let t = l.ty(b, self.tcx);
        let wide = matches!(t.kind(), TyKind::Uint(ty::UintTy::Usize | ty::UintTy::U64 | ty::UintTy::U128) | TyKind::Int(ty::IntTy::Isize | ty::IntTy::I64 | ty::IntTy::I128));
        let small = |o: &Operand<'tcx>| match src(b, d, o) {
            Src::Const(c) => c.try_eval_bits(self.tcx, self.env(b)).is_some_and(|v| v < 1 << 32),
            _ => true,
        };
        let one = |o: &Operand<'tcx>| matches!(src(b, d, o), Src::Const(c) if c.try_eval_bits(self.tcx, self.env(b)).is_some_and(|v| v <= 1));
        (wide && small(l) && small(r)) || ((one(l) || one(r)) && t.primitive_size(self.tcx).bits() >= 32)
    }
    fn assert_ok(&self, b: &Body<'tcx>, d: &Defs, m: &AssertKind<Operand<'tcx>>, at: BasicBlock) -> Result<String, String> {
        match m {
            AssertKind::Overflow(BinOp::Add, l, r) => {
                if self.small_sum(b, d, l, r) {
                    Ok("a counter is bounded by the size of the item".into())
                } else {
                    Err("the sum may overflow".into())
                }
            }
            AssertKind::BoundsCheck { len, index } => {
                let _ = len;
                if self.counted(b, d, index, None) {
                    Ok("an index below the length".into())
                } else if self.guarded_by(b, d, at, None, &["len", "is_empty", "first", "last", "get", "position", "enumerate"]) {
                    Ok("guarded by a check of the length".into())
                } else {
                    Err("the index may be out of bounds".into())
                }
            }
            AssertKind::Overflow(BinOp::Sub, ..) => {
                if self.guarded_by(b, d, at, None, &["is_empty", "is_some", "first", "last"]) || self.guarded_cmp(b, d, at, m) {
                    Ok("guarded by a comparison".into())
                } else {
                    Err("the difference may overflow".into())
                }
            }
            _ => Err("may fail".into()),
        }
    }

    /// the local and the fields a place stands for, references removed
    fn spelled(&self, b: &Body<'tcx>, d: &Defs, p: Place<'tcx>) -> (Local, Vec<usize>) {
        let fields = |p: Place<'tcx>| -> Vec<usize> {
            p.projection.iter().filter_map(|e| match e {
                ProjectionElem::Field(f, _) => Some(f.index()),
                ProjectionElem::Downcast(_, v) => Some(1000 + v.index()),
                _ => None,
            }).collect()
        };
        let (mut l, mut path) = (p.local, fields(p));
        for _ in 0..40 {
            let [Def::Assign(loc)] = &d.defs[l][..] else { break };
            let q = match rvalue(b, *loc) {
                Some(Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..)) | Some(Rvalue::Cast(_, Operand::Copy(q) | Operand::Move(q), _)) => *q,
                Some(Rvalue::Ref(_, _, q)) | Some(Rvalue::CopyForDeref(q)) => *q,
                _ => break,
            };
            let mut f = fields(q);
            f.append(&mut path);
            (l, path) = (q.local, f);
        }
        (l, path)
    }
    /// does the index run over `0..x.len()` where `x` is what is indexed?
    fn counted(&self, b: &Body<'tcx>, d: &Defs, index: &Operand<'tcx>, recv: Option<Place<'tcx>>) -> bool {
        let Some(recv) = recv else { return false };
        // `Some(i)` of `next`
        let Some(mut p) = index.place() else { return false };
        for _ in 0..20 {
            if !p.projection.is_empty() {
                break;
            }
            let [Def::Assign(loc)] = &d.defs[p.local][..] else { return false };
            match rvalue(b, *loc) {
                Some(Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..)) => p = *q,
                _ => return false,
            }
        }
        let Src::Call(c) = src_place(b, d, Place::from(p.local), 0) else { return false };
        let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind else { return false };
        let Some((f, ga)) = callee(b, self.tcx, func) else { return false };
        let range = ga.types().next().is_some_and(|t| tail(&self.adt_name(t)).1 == "Range");
        if !range || tail(&self.path(f)) != ("Iterator".into(), "next".into()) {
            return false;
        }
        let Some(it) = args.first().and_then(|a| a.node.place()) else { return false };
        let mut s = src_place(b, d, it, 0);
        if let Src::Call(c) = s {
            let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind else { return false };
            if !callee(b, self.tcx, func).is_some_and(|(f, _)| tail(&self.path(f)).1 == "into_iter") {
                return false;
            }
            s = src(b, d, &args[0].node);
        }
        let Src::Assign(loc) = s else { return false };
        let Some(Rvalue::Aggregate(_, ops)) = rvalue(b, loc) else { return false };
        let Some(end) = ops.iter().nth(1) else { return false };
        let Src::Call(c) = src(b, d, end) else { return false };
        let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind else { return false };
        if !callee(b, self.tcx, func).is_some_and(|(f, _)| tail(&self.path(f)).1 == "len") {
            return false;
        }
        let Some(q) = args.first().and_then(|a| a.node.place()) else { return false };
        let (l, path) = self.spelled(b, d, q);
        // and it does not change
        let fixed = !b.basic_blocks.iter().flat_map(|x| &x.statements).any(|x| matches!(&x.kind, StatementKind::Assign(x) if matches!(&x.1, Rvalue::Ref(_, BorrowKind::Mut { .. }, m) if base(b, d, *m) == l)));
        fixed && self.spelled(b, d, recv) == (l, path)
    }
    /// is `at` only reachable through the branch of a switch on a comparison of the same operands?
    fn guarded_cmp(&self, b: &Body<'tcx>, d: &Defs, at: BasicBlock, m: &AssertKind<Operand<'tcx>>) -> bool {
        let AssertKind::Overflow(_, l, _) = m else { return false };
        let Some(lp) = l.place() else { return false };
        let lb = base(b, d, lp);
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            let TerminatorKind::SwitchInt { discr, targets } = &data.terminator().kind else { continue };
            let cmp = match src(b, d, discr) {
                Src::Assign(loc) => match rvalue(b, loc) {
                    Some(Rvalue::BinaryOp(op, x)) if matches!(op, BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Eq | BinOp::Ne) => [&x.0, &x.1].iter().any(|o| o.place().is_some_and(|p| base(b, d, p) == lb)),
                    _ => false,
                },
                // `match n { 0 => .., n => n - 1 }`
                _ => discr.place().is_some_and(|p| base(b, d, p) == lb),
            };
            if cmp {
                for t in targets.all_targets() {
                    if !reach(b, &HashSet::from([(bb, *t)])).contains(&at) {
                        return true;
                    }
                }
            }
        }
        false
    }

    /// is `at` only reachable through one branch of a switch on the result of one of `names`,
    /// called on (a part of) `recv`?
    fn guarded_by(&self, b: &Body<'tcx>, d: &Defs, at: BasicBlock, recv: Option<Local>, names: &[&str]) -> bool {
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            let TerminatorKind::SwitchInt { discr, targets } = &data.terminator().kind else { continue };
            // the calls the discriminant is computed from
            let mut todo = vec![discr.clone()];
            let mut hit = None;
            let mut n = 0;
            while let Some(o) = todo.pop() {
                n += 1;
                if n > 20 {
                    break;
                }
                match src(b, d, &o) {
                    Src::Call(c) => {
                        if let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind {
                            if let Some((f, _)) = callee(b, self.tcx, func) {
                                let l = tail(&self.path(f)).1;
                                let same = recv.is_none_or(|r| args.first().and_then(|a| a.node.place()).is_some_and(|p| base(b, d, p) == r));
                                if names.contains(&l.as_str()) && same {
                                    hit = Some(l);
                                }
                            }
                        }
                    }
                    Src::Assign(loc) => match rvalue(b, loc) {
                        Some(Rvalue::BinaryOp(_, x)) => todo.extend([x.0.clone(), x.1.clone()]),
                        Some(Rvalue::UnaryOp(_, x)) => todo.push(x.clone()),
                        Some(Rvalue::Discriminant(p)) => todo.push(Operand::Copy(*p)),
                        _ => {}
                    },
                    _ => {}
                }
            }
            let Some(name) = hit else { continue };
            // the edge that has to be taken
            let neg = name == "is_empty" || name == "is_none" || name == "is_err";
            let simple = ["is_ident", "is_empty", "is_some", "is_ok", "is_none", "is_err"].contains(&name.as_str()) && matches!(src(b, d, discr), Src::Call(_));
            for t in targets.all_targets() {
                let is_false = targets.iter().any(|(v, x)| v == 0 && x == *t);
                if simple && is_false != neg {
                    continue;
                }
                if !reach(b, &HashSet::from([(bb, *t)])).contains(&at) {
                    return true;
                }
            }
        }
        false
    }

    pub fn infinite(&self, b: &Body<'tcx>, t: Ty<'tcx>) -> bool {
        // an endless range somewhere in the type of an iterator
        let has = t.walk().any(|a| {
            a.as_type().is_some_and(|t| match t.kind() {
                TyKind::Adt(x, _) if tail(&self.path(x.did())).1 == "RangeFrom" => true,
                TyKind::Adt(x, a) if tail(&self.path(x.did())).1 == "RangeInclusive" => {
                    matches!(a.type_at(0).kind(), TyKind::Uint(ty::UintTy::Usize | ty::UintTy::U64 | ty::UintTy::U128)) && self.has_max(b)
                }
                _ => false,
            })
        });
        let cut = t.walk().any(|a| a.as_type().is_some_and(|t| matches!(t.kind(), TyKind::Adt(x, _) if ["Take", "Zip", "TakeWhile", "MapWhile", "Scan", "StepBy"].contains(&tail(&self.path(x.did())).1.as_str()))));
        has && !cut
    }
    /// does the body mention the largest value of a 64-bit integer?
    fn has_max(&self, b: &Body<'tcx>) -> bool {
        let mut found = false;
        for data in b.basic_blocks.iter() {
            if let TerminatorKind::Call { func, args, .. } = &data.terminator().kind {
                if let Some((f, _)) = callee(b, self.tcx, func) {
                    if tail(&self.path(f)) == ("RangeInclusive".into(), "new".into()) {
                        if let Some(Operand::Constant(c)) = args.get(1).map(|a| &a.node) {
                            found |= c.const_.try_eval_bits(self.tcx, self.env(b)).is_some_and(|v| v >= u64::MAX as u128);
                        }
                    }
                }
            }
        }
        found
    }
    /// the edges taken when an endless iterator ends
    fn infinite_cuts(&self, b: &Body<'tcx>, d: &Defs) -> HashSet<(BasicBlock, BasicBlock)> {
        let mut out = HashSet::new();
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            let TerminatorKind::SwitchInt { discr, targets } = &data.terminator().kind else { continue };
            let Src::Assign(loc) = src(b, d, discr) else { continue };
            let Some(Rvalue::Discriminant(p)) = rvalue(b, loc) else { continue };
            let Src::Call(c) = src_place(b, d, *p, 0) else { continue };
            let TerminatorKind::Call { func, .. } = &b.basic_blocks[c].terminator().kind else { continue };
            let Some((f, ga)) = callee(b, self.tcx, func) else { continue };
            if self.search_end(b, f, ga) {
                for (v, t) in targets.iter() {
                    if v == 0 {
                        out.insert((bb, t));
                    }
                }
            }
        }
        out
    }
    /// does this call return `None` only when an endless iterator has ended?
    fn search_end(&self, b: &Body<'tcx>, f: DefId, ga: ty::GenericArgsRef<'tcx>) -> bool {
        let (p, l) = tail(&self.path(f));
        p == "Iterator" && ["next", "find", "find_map", "position", "nth"].contains(&l.as_str()) && ga.types().next().is_some_and(|t| self.infinite(b, t))
    }

    fn diverging_ok(&self, k: LocalDefId, b: &Body<'tcx>, at: BasicBlock, inf: &HashSet<(BasicBlock, BasicBlock)>) -> Result<String, String> {
        if !reach(b, inf).contains(&at) {
            return if inf.is_empty() || reach(b, &HashSet::new()).contains(&at) { Ok("only after an endless iterator has ended".into()) } else { Ok("not reachable".into()) };
        }
        // constant propagation from the call sites
        let worlds = self.worlds(k, 0);
        for w in &worlds {
            if self.walk(b, w).contains(&at) {
                return Err("this call is reachable and does not return".into());
            }
        }
        Ok(format!("not reachable from any of {} call sites", worlds.len()))
    }

    /// what is known about the parameters at each of the calls of a function
    fn worlds(&self, k: LocalDefId, depth: usize) -> Vec<HashMap<Local, Const<'tcx>>> {
        let direct = matches!(self.tcx.def_kind(k.to_def_id()), DefKind::Fn | DefKind::AssocFn) && self.tcx.trait_item_of(k.to_def_id()).is_none();
        let sites = self.call_sites(k);
        if !direct || sites.is_empty() || depth > 6 || self.escapes(k) {
            return vec![HashMap::new()];
        }
        let mut out = vec![];
        for (cb, args) in &sites {
            let cd = defs(cb);
            let vs: Vec<Src<'tcx>> = args.iter().map(|a| src(cb, &cd, a)).collect();
            let callers = if vs.iter().any(|v| matches!(v, Src::Param(_))) { self.worlds(cb.source.def_id().expect_local(), depth + 1) } else { vec![HashMap::new()] };
            for w in callers {
                let mut m = HashMap::new();
                for (i, v) in vs.iter().enumerate() {
                    match v {
                        Src::Const(c) => drop(m.insert(Local::from_usize(i + 1), *c)),
                        Src::Param(p) => drop(w.get(p).map(|c| m.insert(Local::from_usize(i + 1), *c))),
                        _ => {}
                    }
                }
                out.push(m);
            }
        }
        out
    }
    /// is the function used as a value?
    fn escapes(&self, k: LocalDefId) -> bool {
        self.bodies.values().any(|b| {
            b.basic_blocks.iter().any(|data| {
                let TerminatorKind::Call { args, .. } = &data.terminator().kind else { return false };
                args.iter().any(|a| matches!(a.node.ty(*b, self.tcx).kind(), TyKind::FnDef(f, _) if *f == k.to_def_id()))
            })
        })
    }

    fn call_sites(&self, k: LocalDefId) -> Vec<(&'tcx Body<'tcx>, Vec<Operand<'tcx>>)> {
        let mut out = vec![];
        for (_, b) in self.bodies.iter() {
            for data in b.basic_blocks.iter() {
                if let TerminatorKind::Call { func, args, .. } = &data.terminator().kind {
                    if callee(b, self.tcx, func).is_some_and(|(f, _)| f == k.to_def_id()) {
                        out.push((*b, args.iter().map(|a| a.node.clone()).collect()));
                    }
                }
            }
        }
        out
    }

    /// blocks reachable when the parameters have the given values
    fn walk(&self, b: &Body<'tcx>, w: &HashMap<Local, Const<'tcx>>) -> HashSet<BasicBlock> {
        let d = defs(b);
        let mut cut = HashSet::new();
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            if let TerminatorKind::SwitchInt { discr, targets } = &data.terminator().kind {
                if let Some(v) = self.eval(b, &d, w, discr, 0) {
                    let t = targets.target_for_value(v);
                    for s in targets.all_targets() {
                        if *s != t {
                            cut.insert((bb, *s));
                        }
                    }
                }
            }
        }
        reach(b, &cut)
    }
    fn eval(&self, b: &Body<'tcx>, d: &Defs, w: &HashMap<Local, Const<'tcx>>, o: &Operand<'tcx>, depth: usize) -> Option<u128> {
        if depth > 20 {
            return None;
        }
        let bits = |c: Const<'tcx>| c.try_eval_bits(self.tcx, self.env(b));
        match src(b, d, o) {
            Src::Const(c) => bits(c),
            Src::Param(l) => bits(*w.get(&l)?),
            Src::Call(c) => {
                let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind else { return None };
                let (f, _) = callee(b, self.tcx, func)?;
                let path = self.path(f);
                if !path.contains("impl char") || args.len() != 1 {
                    return None;
                }
                let c = char::from_u32(self.eval(b, d, w, &args[0].node, depth + 1)? as u32)?;
                Some(match tail(&path).1.as_str() {
                    "is_alphabetic" => c.is_alphabetic(),
                    "is_uppercase" => c.is_uppercase(),
                    "is_lowercase" => c.is_lowercase(),
                    "is_alphanumeric" => c.is_alphanumeric(),
                    "is_numeric" => c.is_numeric(),
                    "is_whitespace" => c.is_whitespace(),
                    "is_control" => c.is_control(),
                    "is_ascii" => c.is_ascii(),
                    "is_ascii_alphabetic" => c.is_ascii_alphabetic(),
                    "is_ascii_uppercase" => c.is_ascii_uppercase(),
                    "is_ascii_lowercase" => c.is_ascii_lowercase(),
                    "is_ascii_digit" => c.is_ascii_digit(),
                    "is_ascii_alphanumeric" => c.is_ascii_alphanumeric(),
                    _ => return None,
                } as u128)
            }
            Src::Assign(loc) => match rvalue(b, loc)? {
                Rvalue::UnaryOp(UnOp::Not, x) if x.ty(b, self.tcx).is_bool() => Some(1 - self.eval(b, d, w, x, depth + 1)?),
                Rvalue::BinaryOp(op, x) => {
                    let (l, r) = (self.eval(b, d, w, &x.0, depth + 1)?, self.eval(b, d, w, &x.1, depth + 1)?);
                    Some(match op {
                        BinOp::Eq => l == r,
                        BinOp::Ne => l != r,
                        BinOp::Lt => l < r,
                        BinOp::Le => l <= r,
                        BinOp::Gt => l > r,
                        BinOp::Ge => l >= r,
                        _ => return None,
                    } as u128)
                }
                _ => None,
            },
            Src::Other => None,
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn site(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, at: BasicBlock, path: &str, (p, l): (&str, &str), ga: ty::GenericArgsRef<'tcx>, args: &[rustc_span::Spanned<Operand<'tcx>>], inf: &HashSet<(BasicBlock, BasicBlock)>) -> Option<Result<String, String>> {
        let arg = |i: usize| args.get(i).map(|a| &a.node);
        if !reach(b, inf).contains(&at) {
            return None;
        }
        // text that has to be an identifier
        if (p == "Ident" && (l == "new" || l == "new_raw")) || l == "mk_ident" {
            let s = self.text(k, b, d, arg(0)?);
            return Some(match s {
                Ok(w) if l == "new_raw" => Err(format!("not every identifier may be raw ({w})")),
                r => r.map_err(|e| format!("the text may not be an identifier: {e}")),
            });
        }
        if p == "Lifetime" && l == "new" {
            let ok = matches!(src(b, d, arg(0)?), Src::Const(c) if const_str(self.tcx, self.env(b), c).is_some_and(|s| s.strip_prefix('\'').is_some_and(ident_like)));
            return Some(if ok { Ok("a fixed lifetime".into()) } else { Err("the text may not be a lifetime".into()) });
        }
        if (p == "LitInt" || p == "LitFloat") && l == "new" {
            let ok = matches!(src(b, d, arg(0)?), Src::Const(_));
            return Some(if ok { Ok("a fixed literal".into()) } else { Err("the text may not be a literal".into()) });
        }
        if p == "Literal" && (l.starts_with("f32") || l.starts_with("f64")) {
            return Some(Err("the number may not be finite".into()));
        }
        if p == "__private" && l == "parse" && path.starts_with("syn::") {
            return Some(self.parse_quote(b, d, ga, arg(0)?));
        }
        if p == "Punctuated" && (l == "push_value" || l == "push_punct" || l == "insert") {
            return Some(Err("panics when the sequence is not in the expected state".into()));
        }
        if l == "index" || l == "index_mut" {
            if p == "Index" || p == "IndexMut" {
                let r = arg(0).and_then(|o| o.place()).map(|p| base(b, d, p));
                let zero = arg(1).is_some_and(|o| matches!(src(b, d, o), Src::Const(c) if c.try_eval_bits(self.tcx, self.env(b)) == Some(0)));
                let full = ga.types().nth(1).is_some_and(|t| format!("{t}").ends_with("RangeFull"));
                let names: &[&str] = if zero { &["is_ident", "get_ident", "is_empty", "len", "first", "last"] } else { &["len"] };
                let counted = arg(0).and_then(|o| o.place()).is_some_and(|p| arg(1).is_some_and(|i| self.counted(b, d, i, Some(p))));
                return Some(if full {
                    Ok("the whole range".into())
                } else if counted {
                    Ok("an index below the length".into())
                } else if self.guarded_by(b, d, at, r, names) {
                    Ok("guarded by a check that the element exists".into())
                } else {
                    Err("the element may not exist".into())
                });
            }
        }
        if ["unwrap", "expect", "unwrap_err", "expect_err"].contains(&l) && (p == "Option" || p == "Result") {
            let o = arg(0)?;
            if let Src::Call(c) = src(b, d, o) {
                if let TerminatorKind::Call { func, .. } = &b.basic_blocks[c].terminator().kind {
                    if let Some((f, ga)) = callee(b, self.tcx, func) {
                        if self.search_end(b, f, ga) {
                            return Some(self.unbounded(k));
                        }
                        // formatting into a string does not fail
                        if tail(&self.path(f)).1 == "write_fmt" && ga.types().next().is_some_and(|t| format!("{t}").contains("String")) {
                            return Some(Ok("formatting into a string cannot fail".into()));
                        }
                        if let (true, TerminatorKind::Call { args, .. }) = (tail(&self.path(f)).1 == "checked_add", &b.basic_blocks[c].terminator().kind) {
                            if self.small_sum(b, d, &args[0].node, &args[1].node) {
                                return Some(Ok("a counter is bounded by the size of the item".into()));
                            }
                        }
                        // `get_ident` of a path that is an identifier, `first` of what is not empty
                        let (_, gl) = tail(&self.path(f));
                        if ["get_ident", "first", "last", "first_mut", "last_mut", "pop"].contains(&gl.as_str()) {
                            if let TerminatorKind::Call { args, .. } = &b.basic_blocks[c].terminator().kind {
                                let r = args.first().and_then(|a| a.node.place()).map(|p| base(b, d, p));
                                if self.guarded_by(b, d, at, r, &["is_ident", "get_ident", "is_empty", "len"]) {
                                    return Some(Ok("guarded by a check that the element exists".into()));
                                }
                            }
                        }
                    }
                }
            }
            let names: &[&str] = match (p, l.contains("err")) {
                ("Option", _) => &["is_some", "is_none"],
                (_, false) => &["is_ok", "is_err"],
                _ => &["is_err", "is_ok"],
            };
            let r = o.place().map(|p| base(b, d, p));
            if self.guarded_by(b, d, at, r, names) {
                return Some(Ok("guarded by a check".into()));
            }
            return Some(Err("may be called on the other variant".into()));
        }
        if may_panic(path) || MORE.contains(&(p, l)) {
            return Some(Err("panics for some arguments".into()));
        }
        None
    }

    /// an endless search ends when there is no bound on the candidates
    pub fn unbounded(&self, k: LocalDefId) -> Result<String, String> {
        let mut out = Text::default();
        for f in self.subtree(k) {
            if self.is_text(self.bodies[&f].local_decls[RETURN_PLACE].ty) {
                let _ = self.fn_shape(f, &mut out, 0);
            }
        }
        if out.counter {
            Ok("a search over an endless supply of names".into())
        } else {
            Err("the candidates do not depend on the endless counter".into())
        }
    }

    fn parse_quote(&self, b: &Body<'tcx>, d: &Defs, ga: ty::GenericArgsRef<'tcx>, tokens: &Operand<'tcx>) -> Result<String, String> {
        let Some(t) = ga.types().next() else { return Err("unknown target".into()) };
        let name = match t.kind() {
            TyKind::Adt(a, _) => tail(&self.path(a.did())).1,
            _ => format!("{t}"),
        };
        let Some(p) = tokens.place() else { return Err("unknown tokens".into()) };
        let root = base(b, d, p);
        // what is appended to the token stream, in order of the blocks that do it
        let mut parts: Vec<(usize, String)> = vec![];
        let dom = b.basic_blocks.dominators();
        let mut blocks: Vec<BasicBlock> = b.basic_blocks.indices().collect();
        blocks.retain(|x| reach(b, &HashSet::new()).contains(x));
        blocks.sort_by(|x, y| if x == y { std::cmp::Ordering::Equal } else if dom.dominates(*x, *y) { std::cmp::Ordering::Less } else if dom.dominates(*y, *x) { std::cmp::Ordering::Greater } else { x.cmp(y) });
        let mut all = vec![];
        for bb in blocks {
            if let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[bb].terminator().kind {
                let Some((f, ga)) = callee(b, self.tcx, func) else { continue };
                let (_, l) = tail(&self.path(f));
                let on = args.iter().any(|a| a.node.place().is_some_and(|p| base(b, d, p) == root && matches!(a.node.ty(b, self.tcx).kind(), TyKind::Ref(_, _, Mutability::Mut))));
                if !on {
                    continue;
                }
                if l == "to_tokens" {
                    let t = ga.type_at(0).peel_refs();
                    let n = match t.kind() {
                        TyKind::Adt(a, _) => tail(&self.path(a.did())).1,
                        _ => format!("{t}"),
                    };
                    all.push(format!("#{n}"));
                } else if l.starts_with("push_") {
                    all.push(l);
                }
            }
        }
        parts.extend(all.into_iter().enumerate());
        let raw: Vec<_> = parts.iter().filter(|(_, s)| s.starts_with('#') && !NODES.contains(&&s[1..])).map(|(_, s)| s[1..].to_string()).collect();
        if !raw.is_empty() {
            return Err(format!("`{}` may not parse as {name}", raw.join("`, `")));
        }
        match name.as_str() {
            // `TYPE: ..`; a type is always followed by its colon
            "WherePredicate" | "PredicateType" => match &parts[..] {
                [(_, a), (_, c), ..] if (a == "#Type" || a == "#Ident" || a == "#Path") && c.starts_with("push_colon") => Ok(format!("a predicate on a type: {}", parts.iter().map(|p| p.1.as_str()).collect::<Vec<_>>().join(" "))),
                _ => Err("the tokens do not start like a predicate on a type".into()),
            },
            "Type" | "Expr" | "Path" | "GenericArgument" | "TypeParamBound" | "Item" | "ItemImpl" | "Pat" | "Stmt" | "Block" | "WhereClause" | "GenericParam" | "TraitBound" => Ok("syntax nodes in a fixed template".into()),
            n => match &parts[..] {
                p if p.iter().all(|x| !x.1.starts_with('#')) => Ok("fixed tokens".into()),
                [(_, a)] if a[1..] == *n => Ok("the same node".into()),
                _ => Err(format!("the tokens may not parse as {n}")),
            },
        }
    }

    // ---- text used as an identifier

    /// local functions and closures a function may run
    pub fn subtree(&self, k: LocalDefId) -> Vec<LocalDefId> {
        let mut seen = HashSet::new();
        let mut out = vec![];
        let mut todo = vec![k];
        while let Some(f) = todo.pop() {
            if !seen.insert(f) {
                continue;
            }
            let Some(b) = self.bodies.get(&f) else { continue };
            out.push(f);
            for data in b.basic_blocks.iter() {
                for s in &data.statements {
                    if let StatementKind::Assign(x) = &s.kind {
                        if let Rvalue::Aggregate(a, _) = &x.1 {
                            if let AggregateKind::Closure(c, _) = **a {
                                todo.extend(c.as_local());
                            }
                        }
                    }
                }
                if let TerminatorKind::Call { func, args, .. } = &data.terminator().kind {
                    if let Some((f, _)) = callee(b, self.tcx, func) {
                        todo.extend(f.as_local());
                    }
                    for a in args.iter() {
                        if let TyKind::FnDef(f, _) = a.node.ty(*b, self.tcx).kind() {
                            todo.extend(f.as_local());
                        }
                    }
                }
            }
        }
        out
    }

    fn text(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, o: &Operand<'tcx>) -> Result<String, String> {
        let mut out = Text::default();
        let s = self.shape(k, b, d, o, &mut out, 0)?;
        if s.empty {
            return Err("it may be empty".into());
        }
        if s.digit {
            return Err("it may start with a digit".into());
        }
        if let Some(e) = out.bad {
            return Err(e);
        }
        let mut sub = vec![k];
        for f in std::mem::take(&mut out.fns) {
            for g in self.subtree(f) {
                if !sub.contains(&g) {
                    sub.push(g);
                }
            }
        }
        if sub.len() > 1 {
            sub.remove(0);
        }
        self.letters(&sub, &mut out);
        match out.bad {
            Some(e) => Err(e),
            None => Ok(out.note.unwrap_or_else(|| "letters, digits and fixed identifiers in a fixed pattern".into())),
        }
    }

    /// the shape of a text: the characters it is made of all are characters of an identifier
    fn shape(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, o: &Operand<'tcx>, out: &mut Text, depth: usize) -> Result<Shape, String> {
        match o {
            Operand::Constant(c) => self.const_shape(b, c.const_, out),
            Operand::Copy(p) | Operand::Move(p) => self.place_shape(k, b, d, *p, out, depth + 1),
            _ => Err("its origin is not known".into()),
        }
    }
    fn const_shape(&self, b: &Body<'tcx>, c: Const<'tcx>, out: &mut Text) -> Result<Shape, String> {
        if c.ty().is_char() {
            let c = const_char(self.tcx, self.env(b), c).ok_or("a constant that is not known")?;
            return if c == '_' || c.is_alphanumeric() { Ok(Shape { empty: false, digit: c.is_numeric() }) } else { Err(format!("the character {c:?}")) };
        }
        let s = const_str(self.tcx, self.env(b), c).ok_or("a constant that is not known")?;
        if !s.chars().all(|c| c == '_' || c.is_alphanumeric()) {
            return Err(format!("`{s}`"));
        }
        out.note.get_or_insert(format!("the fixed identifier `{s}`"));
        Ok(Shape { empty: s.is_empty(), digit: s.chars().next().is_some_and(|c| c != '_' && !c.is_alphabetic()) })
    }
    fn place_shape(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, p: Place<'tcx>, out: &mut Text, depth: usize) -> Result<Shape, String> {
        if depth > 60 {
            return Err("its origin is not known".into());
        }
        let l = p.local;
        if p.projection.iter().any(|e| !matches!(e, ProjectionElem::Deref)) {
            let bt = b.local_decls[l].ty.peel_refs();
            // what a closure captures
            if let TyKind::Closure(c, _) = bt.kind() {
                if l.index() == 1 {
                    let f = p.projection.iter().find_map(|e| match e {
                        ProjectionElem::Field(f, _) => Some(f),
                        _ => None,
                    });
                    if let (Some(f), Some((pk, pb, ops))) = (f, self.made(*c)) {
                        return self.shape(pk, pb, &defs(pb), ops.get(f.index()).ok_or("an unknown capture")?, out, depth + 1);
                    }
                }
            }
            // a field of a type all of whose values are made from fixed texts
            if let Some(t) = self.field_owner(b, d, p) {
                out.note = Some(self.adt_text(t)?);
                return Ok(Shape { empty: false, digit: false });
            }
            // a part of an option, a tuple: whatever went into it
            if l.index() > b.arg_count {
                return self.origins(k, b, d, &Operand::Copy(Place::from(l)), out, depth + 1)?.ok_or("its origin is not known".into());
            }
            return Err("its origin is not known".into());
        }
        if d.defs[l].is_empty() && l.index() >= 1 && l.index() <= b.arg_count {
            // the element a closure is handed by the iterator, or the option, it is passed to
            if l.index() == 2 && b.arg_count == 2 {
                if let Some((pk, pb, it)) = self.handed_by(k) {
                    let s = self.origins(pk, pb, &defs(pb), &it, out, depth + 1)?.ok_or("its origin is not known")?;
                    return self.pushed(k, b, d, l, s, out, depth);
                }
            }
            // a parameter: every caller
            let sites = self.call_sites(k);
            if sites.is_empty() || self.escapes(k) {
                return Err("its origin is not known".into());
            }
            let mut s = Shape { empty: false, digit: false };
            for (cb, args) in &sites {
                let kk = cb.source.def_id().expect_local();
                s = s.join(self.shape(kk, cb, &defs(cb), args.get(l.index() - 1).ok_or("an unknown argument")?, out, depth + 1)?);
            }
            out.note = Some(format!("fixed at each of {} call sites", sites.len()));
            return self.pushed(k, b, d, l, s, out, depth);
        }
        if d.defs[l].is_empty() {
            return Err("its origin is not known".into());
        }
        let mut s: Option<Shape> = None;
        for x in &d.defs[l] {
            let one = match x {
                Def::Call(c) => self.call_shape(k, b, d, *c, out, depth + 1)?,
                Def::Assign(loc) => match rvalue(b, *loc) {
                    Some(Rvalue::Use(o, ..)) | Some(Rvalue::Cast(_, o, _)) => self.shape(k, b, d, o, out, depth + 1)?,
                    Some(Rvalue::Ref(_, _, q)) | Some(Rvalue::CopyForDeref(q)) => self.place_shape(k, b, d, *q, out, depth + 1)?,
                    _ => return Err("its origin is not known".into()),
                },
            };
            s = Some(s.map_or(one, |s| s.join(one)));
        }
        let s = s.ok_or("its origin is not known")?;
        self.pushed(k, b, d, l, s, out, depth)
    }
    /// what is appended to a local
    #[allow(clippy::too_many_arguments)]
    fn pushed(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, l: Local, mut s: Shape, out: &mut Text, depth: usize) -> Result<Shape, String> {
        if !self.is_text(b.local_decls[l].ty) {
            return Ok(s);
        }
        let mut parts: Vec<(BasicBlock, Shape)> = vec![];
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
            if data.is_cleanup {
                continue;
            }
            for (i, a) in args.iter().enumerate() {
                let t = a.node.ty(b, self.tcx);
                if !matches!(t.kind(), TyKind::Ref(_, _, Mutability::Mut)) || a.node.place().is_none_or(|p| base(b, d, p) != l) {
                    continue;
                }
                let (f, _) = callee(b, self.tcx, func).ok_or("it is changed by an unknown call")?;
                let (p, n) = tail(&self.path(f));
                match (p.as_str(), n.as_str()) {
                    ("String", "push" | "push_str") | ("AddAssign", "add_assign") if i == 0 && args.len() == 2 => {
                        let at = args[1].node.ty(b, self.tcx);
                        let x = if at.is_char() && !matches!(src(b, d, &args[1].node), Src::Const(_)) {
                            out.chars = true;
                            Shape { empty: false, digit: false }
                        } else {
                            self.shape(k, b, d, &args[1].node, out, depth + 1)?
                        };
                        parts.push((bb, x));
                    }
                    ("String", "reserve" | "reserve_exact" | "shrink_to_fit" | "make_ascii_uppercase" | "make_ascii_lowercase") | ("str", "make_ascii_uppercase" | "make_ascii_lowercase") => {}
                    ("Write", "write_fmt") if i == 0 && args.len() == 2 => {
                        let Src::Call(c) = src(b, d, &args[1].node) else { return Err("an unknown pattern".into()) };
                        let x = self.format(k, b, d, c, out, depth + 1)?;
                        parts.push((bb, x));
                    }
                    _ => return Err(format!("it is changed by `{p}::{n}`")),
                }
            }
        }
        let dom = b.basic_blocks.dominators();
        for (bb, x) in &parts {
            let later = !s.empty || parts.iter().any(|(o, y)| o != bb && !y.empty && dom.dominates(*o, *bb));
            if x.digit && !later {
                s.digit = true;
            }
        }
        if s.empty {
            // something is always appended
            let ends: Vec<BasicBlock> = b.basic_blocks.iter_enumerated().filter(|(_, x)| matches!(x.terminator().kind, TerminatorKind::Return)).map(|(bb, _)| bb).collect();
            s.empty = !parts.iter().any(|(o, y)| !y.empty && ends.iter().all(|e| dom.dominates(*o, *e)));
        }
        Ok(s)
    }
    /// where a value comes from, looked up in the enclosing function when it is captured
    fn uncaptured(&self, b: &'tcx Body<'tcx>, d: &Defs, o: &Operand<'tcx>) -> (&'tcx Body<'tcx>, Option<Src<'tcx>>) {
        let s = src(b, d, o);
        if !matches!(s, Src::Other) {
            return (b, Some(s));
        }
        let mut p = o.place();
        for _ in 0..20 {
            let Some(q) = p else { break };
            if q.local.index() == 1 && b.arg_count >= 1 {
                if let TyKind::Closure(c, _) = b.local_decls[q.local].ty.peel_refs().kind() {
                    let f = q.projection.iter().find_map(|e| match e {
                        ProjectionElem::Field(f, _) => Some(f),
                        _ => None,
                    });
                    if let (Some(f), Some((_, pb, ops))) = (f, self.made(*c)) {
                        if let Some(o) = ops.get(f.index()) {
                            return self.uncaptured(pb, &defs(pb), o);
                        }
                    }
                }
                break;
            }
            let [Def::Assign(loc)] = &d.defs[q.local][..] else { break };
            p = match rvalue(b, *loc) {
                Some(Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..)) => Some(*q),
                Some(Rvalue::Ref(_, _, q)) | Some(Rvalue::CopyForDeref(q)) => Some(*q),
                _ => None,
            };
        }
        (b, Some(s))
    }
    /// the iterator or option whose elements a closure with one parameter is called with
    fn handed_by(&self, k: LocalDefId) -> Option<(LocalDefId, &'tcx Body<'tcx>, Operand<'tcx>)> {
        if !self.tcx.is_closure_like(k.to_def_id()) {
            return None;
        }
        let mut found = None;
        for (pk, pb) in self.bodies.iter() {
            for data in pb.basic_blocks.iter() {
                let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
                let n = args.iter().filter(|a| matches!(a.node.ty(*pb, self.tcx).peel_refs().kind(), TyKind::Closure(g, _) if *g == k.to_def_id())).count();
                if n == 0 {
                    continue;
                }
                let (f, _) = callee(pb, self.tcx, func)?;
                let (p, _) = tail(&self.path(f));
                if n > 1 || found.is_some() || f.is_local() || !["Iterator", "DoubleEndedIterator", "Option"].contains(&p.as_str()) {
                    return None;
                }
                found = Some((*pk, *pb, args.first()?.node.clone()));
            }
        }
        found
    }
    /// where a closure is made, and what it captures
    fn made(&self, c: DefId) -> Option<(LocalDefId, &'tcx Body<'tcx>, Vec<Operand<'tcx>>)> {
        for (k, b) in self.bodies.iter() {
            for data in b.basic_blocks.iter() {
                for s in &data.statements {
                    let StatementKind::Assign(x) = &s.kind else { continue };
                    let Rvalue::Aggregate(a, ops) = &x.1 else { continue };
                    if matches!(**a, AggregateKind::Closure(f, _) if f == c) {
                        return Some((*k, *b, ops.iter().cloned().collect()));
                    }
                }
            }
        }
        None
    }
    /// the shape of what a local function or closure returns
    fn fn_shape(&self, f: LocalDefId, out: &mut Text, depth: usize) -> Result<Option<Shape>, String> {
        let Some(b) = self.bodies.get(&f) else { return Err(format!("`{}` is not known", self.name(f))) };
        out.fns.insert(f);
        let d = defs(b);
        let t = b.local_decls[RETURN_PLACE].ty.peel_refs();
        let ret = Operand::Copy(Place::from(RETURN_PLACE));
        if self.is_text(t) {
            return self.shape(f, b, &d, &ret, out, depth + 1).map(Some);
        }
        if t.is_bool() || t.is_unit() || t.is_integral() || t.is_char() {
            return Ok(None);
        }
        self.origins(f, b, &d, &ret, out, depth + 1)
    }
    /// a text that comes out of an iterator, an option, a tuple: the texts that went into it
    fn origins(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, o: &Operand<'tcx>, out: &mut Text, depth: usize) -> Result<Option<Shape>, String> {
        if depth > 60 {
            return Err("its origin is not known".into());
        }
        let t = o.ty(b, self.tcx);
        if self.is_text(t.peel_refs()) {
            return self.shape(k, b, d, o, out, depth + 1).map(Some);
        }
        if t.is_bool() || t.is_integral() || t.is_unit() {
            return Ok(None);
        }
        let holds = |t: Ty<'tcx>| self.deep(t, &|t| self.is_text(t), &mut HashSet::new());
        let leaf = |t: Ty<'tcx>| if holds(t) { Err("a copied text".to_string()) } else { Ok(None) };
        let Some(p) = o.place() else {
            return match t.kind() {
                TyKind::FnDef(f, _) if f.is_local() => self.fn_shape(f.expect_local(), out, depth + 1),
                TyKind::Closure(f, _) if f.is_local() => self.fn_shape(f.expect_local(), out, depth + 1),
                // `char::to_string`, `str::to_owned` passed as a function
                TyKind::FnDef(f, a) => match tail(&self.path(*f)).1.as_str() {
                    "to_string" if a.skip_binder().type_at(0).is_char() => {
                        out.chars = true;
                        Ok(Some(Shape { empty: false, digit: false }))
                    }
                    _ => Ok(None),
                },
                _ => leaf(t),
            };
        };
        if p.projection.iter().any(|e| !matches!(e, ProjectionElem::Deref)) {
            if p.local.index() <= b.arg_count {
                return leaf(t);
            }
            return self.origins(k, b, d, &Operand::Copy(Place::from(p.local)), out, depth + 1);
        }
        if d.defs[p.local].is_empty() {
            return leaf(t);
        }
        let mut s: Option<Shape> = None;
        let mut add = |x: Option<Shape>| {
            if let Some(x) = x {
                s = Some(s.map_or(x, |s| s.join(x)));
            }
        };
        for x in &d.defs[p.local] {
            match x {
                Def::Call(c) => {
                    let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[*c].terminator().kind else { unreachable!() };
                    match callee(b, self.tcx, func) {
                        Some((f, _)) if f.is_local() => add(self.fn_shape(f.expect_local(), out, depth + 1)?),
                        Some((f, _)) => {
                            let message = tail(&self.path(f)).1 == "expect";
                            for a in args.iter().take(if message { 1 } else { args.len() }) {
                                add(self.origins(k, b, d, &a.node, out, depth + 1)?);
                            }
                        }
                        None => return Err("an unknown call".into()),
                    }
                }
                Def::Assign(loc) => match rvalue(b, *loc) {
                    Some(Rvalue::Use(o, ..)) | Some(Rvalue::Cast(_, o, _)) => add(self.origins(k, b, d, o, out, depth + 1)?),
                    Some(Rvalue::Ref(_, _, q)) | Some(Rvalue::CopyForDeref(q)) => add(self.origins(k, b, d, &Operand::Copy(*q), out, depth + 1)?),
                    Some(Rvalue::Aggregate(a, ops)) => match **a {
                        AggregateKind::Closure(f, _) => add(self.fn_shape(f.expect_local(), out, depth + 1)?),
                        _ => {
                            for o in ops {
                                add(self.origins(k, b, d, o, out, depth + 1)?);
                            }
                        }
                    },
                    _ => add(leaf(t)?),
                },
            }
        }
        Ok(s)
    }
    fn call_shape(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, c: BasicBlock, out: &mut Text, depth: usize) -> Result<Shape, String> {
        let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind else { unreachable!() };
        let (f, ga) = callee(b, self.tcx, func).ok_or("an unknown call")?;
        let (p, l) = tail(&self.path(f));
        let fine = Shape { empty: false, digit: false };
        if let Some(local) = f.as_local().filter(|f| self.bodies.contains_key(f)) {
            let s = self.fn_shape(local, out, depth + 1)?.ok_or_else(|| format!("`{p}::{l}` makes the text in a way that is not understood"))?;
            out.note = Some(format!("made by `{p}::{l}` from letters, digits and fixed identifiers"));
            return Ok(s);
        }
        let arg = args.first().map(|a| a.node.ty(b, self.tcx).peel_refs());
        match (p.as_str(), l.as_str()) {
            ("String", "new" | "with_capacity") => return Ok(Shape { empty: true, digit: false }),
            ("Default", "default") => return Ok(Shape { empty: true, digit: false }),
            ("fmt", "format") => {
                let Src::Call(c) = src(b, d, &args[0].node) else { return Err("an unknown pattern".into()) };
                return self.format(k, b, d, c, out, depth + 1);
            }
            ("Add", "add") if args.len() == 2 => {
                let x = self.shape(k, b, d, &args[0].node, out, depth + 1)?;
                let y = self.shape(k, b, d, &args[1].node, out, depth + 1)?;
                return Ok(x.then(y));
            }
            ("ToString", "to_string") if !self.is_text(ga.type_at(0).peel_refs()) => {
                let t = ga.type_at(0).peel_refs();
                if matches!(t.kind(), TyKind::Adt(a, _) if tail(&self.path(a.did())).1 == "Ident") {
                    // fine without `r#`
                    let unraw = match src(b, d, &args[0].node) {
                        Src::Call(c) => match &b.basic_blocks[c].terminator().kind {
                            TerminatorKind::Call { func, .. } => callee(b, self.tcx, func).is_some_and(|(f, _)| tail(&self.path(f)).1 == "unraw"),
                            _ => false,
                        },
                        _ => false,
                    };
                    return if unraw { Ok(fine) } else { Err("an identifier may be raw (`r#..`)".into()) };
                }
                if let Src::Const(x) = src(b, d, &args[0].node) {
                    if x.ty().is_char() {
                        return self.const_shape(b, x, out);
                    }
                }
                return match self.unit(b, t, out, true) {
                    Piece::Bad(e) => Err(e),
                    Piece::Start => Ok(fine),
                    Piece::Cont => Ok(Shape { empty: false, digit: true }),
                    Piece::Text(s) => Ok(s),
                };
            }
            ("From", "from") | ("Into", "into") if arg.is_some_and(|t| t.is_char()) => {
                return match src(b, d, &args[0].node) {
                    Src::Const(x) => self.const_shape(b, x, out),
                    _ => {
                        out.chars = true;
                        Ok(fine)
                    }
                };
            }
            _ => {}
        }
        if ["to_string", "deref", "deref_mut", "as_ref", "as_str", "as_mut_str", "borrow", "must_use", "clone", "to_owned", "into", "from", "as_deref", "into_owned", "into_string", "into_boxed_str"].contains(&l.as_str()) && args.len() == 1 {
            let t = arg.unwrap();
            if self.is_text(t) {
                return self.shape(k, b, d, &args[0].node, out, depth + 1);
            }
            if let TyKind::Adt(a, _) = t.kind() {
                if a.did().is_local() {
                    out.note = Some(self.adt_text(t)?);
                    return Ok(fine);
                }
            }
            return Err(format!("a text made from `{t}`"));
        }
        // the characters stay what they are
        if (p == "str" || p.contains("str")) && ["to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase"].contains(&l.as_str()) {
            return self.shape(k, b, d, &args[0].node, out, depth + 1);
        }
        // out of an iterator or an option
        let through = matches!(p.as_str(), "Option" | "Result" | "Iterator" | "Try" | "DoubleEndedIterator") && !["sum", "product", "collect", "fold", "try_fold", "reduce"].contains(&l.as_str());
        if through {
            let mut s: Option<Shape> = None;
            for a in args.iter().take(if l == "expect" { 1 } else { args.len() }) {
                if let Some(x) = self.origins(k, b, d, &a.node, out, depth + 1)? {
                    s = Some(s.map_or(x, |s| s.join(x)));
                }
            }
            return s.ok_or_else(|| format!("a text from `{p}::{l}`"));
        }
        Err(format!("a text from `{p}::{l}`"))
    }
    fn is_text(&self, t: Ty<'tcx>) -> bool {
        t.is_str() || matches!(t.kind(), TyKind::Adt(a, _) if ["String", "Cow"].contains(&tail(&self.path(a.did())).1.as_str()))
    }
    fn field_owner(&self, b: &Body<'tcx>, d: &Defs, p: Place<'tcx>) -> Option<Ty<'tcx>> {
        let mut p = p;
        for _ in 0..20 {
            if let Some((i, _)) = p.projection.iter().enumerate().find(|(_, e)| matches!(e, ProjectionElem::Field(..))) {
                let q = PlaceRef { local: p.local, projection: &p.projection[..i] };
                let t = q.ty(b, self.tcx).ty.peel_refs();
                return matches!(t.kind(), TyKind::Adt(a, _) if a.did().is_local()).then_some(t);
            }
            let [Def::Assign(loc)] = &d.defs[p.local][..] else { return None };
            p = match rvalue(b, *loc)? {
                Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..) => *q,
                Rvalue::Ref(_, _, q) | Rvalue::CopyForDeref(q) => *q,
                _ => return None,
            };
        }
        None
    }
    /// all texts the values of a local type are made from
    fn adt_text(&self, t: Ty<'tcx>) -> Result<String, String> {
        let TyKind::Adt(a, _) = t.kind() else { return Err("not a type of this crate".into()) };
        let mut n = 0;
        for (_, b) in self.bodies.iter() {
            let d = defs(b);
            for data in b.basic_blocks.iter() {
                for s in &data.statements {
                    let StatementKind::Assign(x) = &s.kind else { continue };
                    let Rvalue::Aggregate(k, ops) = &x.1 else { continue };
                    let AggregateKind::Adt(did, ..) = **k else { continue };
                    if did != a.did() {
                        continue;
                    }
                    for o in ops {
                        if !self.is_text(o.ty(*b, self.tcx).peel_refs()) {
                            continue;
                        }
                        n += 1;
                        if matches!(src(b, &d, o), Src::Other | Src::Assign(_)) {
                            return Err(format!("a value of `{t}` is not made from a fixed text"));
                        }
                        self.text(b.source.def_id().expect_local(), b, &d, o).map_err(|e| format!("a value of `{t}` holds {e}"))?;
                    }
                }
            }
        }
        if n == 0 {
            return Err(format!("no value of `{t}` is made"));
        }
        Ok(format!("a field of `{t}`, all {n} values of which are fixed identifiers"))
    }

    fn unit(&self, b: &Body<'tcx>, t: Ty<'tcx>, out: &mut Text, display: bool) -> Piece {
        let t = t.peel_refs();
        match t.kind() {
            TyKind::Char => {
                out.chars = true;
                Piece::Start
            }
            TyKind::Uint(_) => {
                out.counter = true;
                Piece::Cont
            }
            TyKind::Bool => Piece::Start,
            TyKind::Adt(a, ga) => match tail(&self.path(a.did())).1.as_str() {
                // strips `r#`
                "IdentFragmentAdapter" => self.fragment(b, ga.types().next().unwrap_or(t), out),
                "Ident" if display => Piece::Bad("an identifier may be raw (`r#..`)".into()),
                _ if a.did().is_local() => match self.adt_text(t) {
                    Ok(_) => Piece::Start,
                    Err(e) => Piece::Bad(e),
                },
                _ => Piece::Bad(format!("a value of type `{t}` in it")),
            },
            _ => Piece::Bad(format!("a value of type `{t}` in it")),
        }
    }
    fn fragment(&self, b: &Body<'tcx>, t: Ty<'tcx>, out: &mut Text) -> Piece {
        let t = t.peel_refs();
        match t.kind() {
            // the type it has in each call
            TyKind::Param(p) => {
                let k = b.source.def_id().expect_local();
                let mut n = 0;
                for b2 in self.bodies.values() {
                    for data in b2.basic_blocks.iter() {
                        let TerminatorKind::Call { func, .. } = &data.terminator().kind else { continue };
                        let Some((f, ga)) = callee(b2, self.tcx, func) else { continue };
                        if f == k.to_def_id() {
                            n += 1;
                            if let Piece::Bad(e) = ga.get(p.index as usize).and_then(|a| a.as_type()).map_or(Piece::Bad("an unknown type".into()), |t| self.fragment(b2, t, out)) {
                                return Piece::Bad(e);
                            }
                        }
                    }
                }
                if n == 0 { Piece::Bad("an unknown type".into()) } else { Piece::Cont }
            }
            TyKind::Adt(a, _) if tail(&self.path(a.did())).1 == "Ident" => Piece::Start,
            TyKind::Uint(_) => {
                out.counter = true;
                Piece::Cont
            }
            _ => match self.unit(b, t, out, false) {
                Piece::Bad(_) => Piece::Bad(format!("a value of type `{t}` in it")),
                p => p,
            },
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn format(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, c: BasicBlock, out: &mut Text, depth: usize) -> Result<Shape, String> {
        let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind else { return Err("an unknown pattern".into()) };
        let (f, _) = callee(b, self.tcx, func).ok_or("an unknown pattern")?;
        let (p, l) = tail(&self.path(f));
        if p != "Arguments" {
            return Err("an unknown pattern".into());
        }
        let Src::Const(t) = src(b, d, &args[0].node) else { return Err("an unknown pattern".into()) };
        if l != "new" {
            return self.const_shape(b, t, out);
        }
        let t = const_bytes(self.tcx, self.env(b), t).ok_or("an unknown pattern")?;
        // the arguments
        let Src::Assign(loc) = src(b, d, &args[1].node) else { return Err("unknown arguments".into()) };
        let Some(Rvalue::Aggregate(_, ops)) = rvalue(b, loc) else { return Err("unknown arguments".into()) };
        let mut pieces = vec![];
        for o in ops {
            let Src::Call(c) = src(b, d, o) else { return Err("unknown arguments".into()) };
            let TerminatorKind::Call { func, .. } = &b.basic_blocks[c].terminator().kind else { unreachable!() };
            let (f, ga) = callee(b, self.tcx, func).ok_or("unknown arguments")?;
            if tail(&self.path(f)).1 != "new_display" {
                return Err("not every value is displayed".into());
            }
            let t = ga.types().next().ok_or("unknown arguments")?;
            if self.is_text(t.peel_refs()) {
                let TerminatorKind::Call { args, .. } = &b.basic_blocks[c].terminator().kind else { unreachable!() };
                pieces.push(match self.shape(k, b, d, &args[0].node, out, depth + 1) {
                    Ok(s) => Piece::Text(s),
                    Err(e) => Piece::Bad(e),
                });
            } else if matches!(t.peel_refs().kind(), TyKind::Adt(a, ga) if tail(&self.path(a.did())).1 == "IdentFragmentAdapter" && ga.types().next().is_some_and(|t| self.is_text(t.peel_refs()))) {
                // `format_ident!` with a text
                let TerminatorKind::Call { args, .. } = &b.basic_blocks[c].terminator().kind else { unreachable!() };
                pieces.push(match self.origins(k, b, d, &args[0].node, out, depth + 1) {
                    Ok(Some(s)) => Piece::Text(s),
                    Ok(None) => Piece::Bad("a text of unknown origin".into()),
                    Err(e) => Piece::Bad(e),
                });
            } else {
                pieces.push(self.unit(b, t, out, true));
            }
        }
        let (mut i, mut next) = (0, 0);
        let mut all = Shape { empty: true, digit: false };
        while i < t.len() && t[i] != 0 {
            let n = t[i];
            i += 1;
            if n < 0x80 || n == 0x80 {
                let len = if n == 0x80 {
                    i += 2;
                    u16::from_le_bytes([t[i - 2], t[i - 1]]) as usize
                } else {
                    n as usize
                };
                let s = String::from_utf8_lossy(&t[i..i + len]).to_string();
                i += len;
                if !s.chars().all(|c| c == '_' || c.is_alphanumeric()) {
                    return Err(format!("`{s}`"));
                }
                all = all.then(Shape { empty: s.is_empty(), digit: !s.is_empty() && !ident_like(&s) });
            } else {
                let mut idx = next;
                if n & 7 != 0 {
                    return Err("padding".into());
                }
                if n & 8 != 0 {
                    idx = u16::from_le_bytes([t[i], t[i + 1]]) as usize;
                    i += 2;
                }
                next = idx + 1;
                all = all.then(match pieces.get(idx) {
                    Some(Piece::Bad(e)) => return Err(e.clone()),
                    Some(Piece::Cont) => Shape { empty: false, digit: true },
                    Some(Piece::Start) => Shape { empty: false, digit: false },
                    Some(Piece::Text(s)) => *s,
                    None => return Err("unknown arguments".into()),
                });
            }
        }
        Ok(all)
    }
    /// every letter that can reach these functions is an ASCII letter
    fn letters(&self, sub: &[LocalDefId], out: &mut Text) {
        if !out.chars {
            return;
        }
        let mut cs: Vec<char> = vec![];
        for f in sub {
            let Some(b) = self.bodies.get(f) else { continue };
            let d = defs(b);
            for data in b.basic_blocks.iter() {
                if let TerminatorKind::Call { args, .. } = &data.terminator().kind {
                    for a in args.iter() {
                        if let Src::Const(c) = src(b, &d, &a.node) {
                            cs.extend(const_char(self.tcx, self.env(b), c));
                        }
                    }
                }
            }
            for l in b.args_iter() {
                if b.local_decls[l].ty.is_char() && !self.tcx.is_closure_like(f.to_def_id()) {
                    for (cb, args) in self.call_sites(*f) {
                        let cd = defs(cb);
                        let (cb, from) = match args.get(l.index() - 1) {
                            Some(a) => self.uncaptured(cb, &cd, a),
                            None => (cb, None),
                        };
                        match from {
                            Some(Src::Const(c)) => cs.extend(const_char(self.tcx, self.env(cb), c)),
                            // passed on from a function whose own callers are looked at
                            Some(Src::Param(p)) if cb.local_decls[p].ty.is_char() => {
                                let mut o2 = Text { chars: true, ..Text::default() };
                                let k2 = cb.source.def_id().expect_local();
                                if !sub.contains(&k2) {
                                    self.letters(&[k2], &mut o2);
                                    if let Some(e) = o2.bad {
                                        return out.fail(&e);
                                    }
                                }
                            }
                            _ => return out.fail("a letter that is not fixed"),
                        }
                    }
                }
            }
        }
        if !(cs.iter().all(|c| c.is_ascii_uppercase()) || cs.iter().all(|c| c.is_ascii_lowercase())) {
            out.fail(&format!("letters {cs:?}"));
        }
    }
}

// ---------------------------------------------------------------- C21

impl<'tcx> Mac<'tcx, '_> {
    pub fn adt_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, _) => self.path(a.did()),
            _ => String::new(),
        }
    }
    fn is_hash(&self, t: Ty<'tcx>) -> bool {
        let p = self.adt_name(t);
        let l = tail(&p).1;
        (l == "HashMap" || l == "HashSet") && matches!(t.kind(), TyKind::Adt(_, a) if a.types().any(|t| tail(&self.adt_name(t)).1 == "RandomState") || p.starts_with("hashbrown"))
    }
    fn is_hash_iter(&self, t: Ty<'tcx>) -> bool {
        let p = self.adt_name(t);
        (p.contains("hash_map::") || p.contains("hash_set::") || p.starts_with("hashbrown::"))
            && ["Iter", "IterMut", "IntoIter", "Keys", "Values", "ValuesMut", "IntoKeys", "IntoValues", "Drain", "Difference", "Union", "Intersection", "SymmetricDifference", "ExtractIf"].contains(&tail(&p).1.as_str())
    }
    /// what a closure captures does not count
    fn walk_has(&self, t: Ty<'tcx>, f: &dyn Fn(Ty<'tcx>) -> bool) -> bool {
        if f(t) {
            return true;
        }
        match t.kind() {
            TyKind::Adt(_, a) => a.types().any(|t| self.walk_has(t, f)),
            TyKind::Ref(_, t, _) | TyKind::Slice(t) | TyKind::Array(t, _) => self.walk_has(*t, f),
            TyKind::Tuple(ts) => ts.iter().any(|t| self.walk_has(t, f)),
            TyKind::Alias(_, a) => {
                // `impl Trait`: what it really is
                if let ty::AliasTyKind::Opaque { def_id } = a.kind {
                    if def_id.is_local() && self.walk_has(self.tcx.type_of(def_id).instantiate(self.tcx, a.args).skip_norm_wip(), f) {
                        return true;
                    }
                }
                a.args.types().any(|t| self.walk_has(t, f))
            }
            _ => false,
        }
    }
    /// does a value of this type hold one whose debug output depends on more than the tokens?
    fn deep(&self, t: Ty<'tcx>, f: &dyn Fn(Ty<'tcx>) -> bool, seen: &mut HashSet<Ty<'tcx>>) -> bool {
        if !seen.insert(t) || seen.len() > 400 {
            return false;
        }
        if f(t) {
            return true;
        }
        match t.kind() {
            TyKind::Adt(a, ga) => {
                let inner = a.did().is_local() && a.all_fields().any(|x| self.deep(self.tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), x.ty(self.tcx, ga)), f, seen));
                inner || ga.types().any(|t| self.deep(t, f, seen))
            }
            TyKind::Ref(_, t, _) | TyKind::Slice(t) | TyKind::Array(t, _) => self.deep(*t, f, seen),
            TyKind::Tuple(ts) => ts.iter().any(|t| self.deep(t, f, seen)),
            _ => false,
        }
    }

    pub fn determinism(&self) {
        let mut n = 0;
        for (k, b) in self.fns() {
            let d = defs(b);
            for data in b.basic_blocks.iter() {
                if data.is_cleanup {
                    continue;
                }
                for s in &data.statements {
                    if let StatementKind::Assign(x) = &s.kind {
                        if let Rvalue::Cast(kind, o, to) = &x.1 {
                            let from = o.ty(b, self.tcx);
                            let addr = matches!(kind, CastKind::PointerExposeProvenance) || (matches!(kind, CastKind::Transmute) && (from.is_any_ptr() && to.is_integral()));
                            // boxed iterators
                            let hidden = |t: Ty<'tcx>| self.walk_has(t, &|t| self.is_hash_iter(t));
                            if hidden(from) && !hidden(*to) {
                                self.ob("C21", k, s.source_info.span, "cast", Err("visits entries in the order of a random hash".into()));
                            }
                            if addr {
                                self.ob("C21", k, s.source_info.span, "address as a number", Err("an address differs from run to run".into()));
                            }
                        }
                        if let Rvalue::ThreadLocalRef(_) = &x.1 {
                            self.ob("C21", k, s.source_info.span, "thread-local state", Err("a value that survives an expansion".into()));
                        }
                    }
                }
                let t = data.terminator();
                let TerminatorKind::Call { func, args, destination, .. } = &t.kind else { continue };
                n += 1;
                let Some((f, ga)) = callee(b, self.tcx, func) else { continue };
                let path = self.path(f);
                if let Some((what, r)) = self.source(b, &d, f, &path, ga, args, *destination) {
                    self.ob("C21", k, t.source_info.span, &what, r);
                }
            }
        }
        // state that survives an expansion
        for id in self.tcx.hir_crate_items(()).definitions() {
            let DefKind::Static { mutability, nested: false, .. } = self.tcx.def_kind(id) else { continue };
            let t = self.tcx.type_of(id).instantiate_identity().skip_norm_wip();
            let frozen = t.is_freeze(self.tcx, TypingEnv::non_body_analysis(self.tcx, id));
            let lazy = ["LazyLock", "Lazy"].contains(&tail(&self.adt_name(t)).1.as_str()) && matches!(t.kind(), TyKind::Adt(_, a) if a.type_at(0).is_freeze(self.tcx, TypingEnv::non_body_analysis(self.tcx, id)));
            let bad = mutability.is_mut() || !(frozen || lazy);
            self.ob("C21", id, self.tcx.def_span(id), "static", if bad { Err("its value may change from one expansion to the next".into()) } else { Ok("never changes".into()) });
        }
        Rec::new("det").n("calls", n).emit();
    }

    #[allow(clippy::too_many_arguments)]
    fn source(&self, b: &Body<'tcx>, d: &Defs, f: DefId, path: &str, ga: ty::GenericArgsRef<'tcx>, args: &[rustc_span::Spanned<Operand<'tcx>>], dest: Place<'tcx>) -> Option<(String, Result<String, String>)> {
        let (p, l) = tail(path);
        let what = format!("{p}::{l}");
        let bad = |w: &str| Some((what.clone(), Err(w.to_string())));
        let own = self.tcx.crate_name(f.krate).to_string();
        let module = self.tcx.def_path_str(f);
        let std = ["std", "core", "alloc"].contains(&own.as_str());
        if std {
            for m in ["env", "time", "thread", "process", "fs", "net", "io", "os"] {
                if module.starts_with(&format!("std::{m}::")) || module.starts_with(&format!("<std::{m}::")) {
                    return bad(&format!("depends on the environment (`std::{m}`)"));
                }
            }
            if ga.types().any(|t| ["Instant", "SystemTime"].contains(&tail(&self.adt_name(t)).1.as_str())) {
                return bad("depends on the time");
            }
            if (l == "hash_one" || l == "build_hasher") && ga.types().next().is_some_and(|t| tail(&self.adt_name(t)).1 == "RandomState") || (p == "RandomState") {
                return bad("a hash with a random seed");
            }
            if p == "Argument" && l == "new_pointer" {
                return bad("formats an address");
            }
            if (p == "ptr" && (l == "hash" || l == "addr")) || l == "expose_provenance" || (p.starts_with("impl *") && l == "addr") {
                return bad("an address differs from run to run");
            }
            if path.contains("::atomic::") || ["Mutex", "RwLock", "OnceLock", "OnceCell", "LocalKey"].contains(&p.as_str()) {
                return bad("state shared between expansions");
            }
            if (p == "Argument" && l == "new_debug") || (p == "Debug" && l == "fmt") {
                let t = ga.types().next()?.peel_refs();
                let hash = |t: Ty<'tcx>| self.is_hash(t) || self.is_hash_iter(t);
                let span = |t: Ty<'tcx>| {
                    let c = match t.kind() {
                        TyKind::Adt(a, _) => self.tcx.crate_name(a.did().krate).to_string(),
                        _ => String::new(),
                    };
                    // their debug output has the position in the source file in it
                    ["proc_macro", "proc_macro2", "syn"].contains(&c.as_str())
                };
                if self.deep(t, &hash, &mut HashSet::new()) {
                    return bad("the debug output lists the entries in the order of a random hash");
                }
                if self.deep(t, &span, &mut HashSet::new()) {
                    return bad("the debug output contains source positions");
                }
            }
        }
        if (own == "proc_macro" || own == "proc_macro2") && (["Span", "DelimSpan"].contains(&p.as_str()) || path.contains("Span")) && ["start", "end", "line", "column", "file", "local_file", "source_file", "byte_range", "source_text", "fmt"].contains(&l.as_str()) {
            return bad("depends on the position of the item");
        }
        if own == "proc_macro" && (path.contains("tracked") || l == "is_available") {
            return bad("depends on the environment");
        }
        // iteration in hash order
        let it = |t: Ty<'tcx>| self.walk_has(t, &|t| self.is_hash_iter(t));
        let hs = |t: Ty<'tcx>| self.walk_has(t, &|t| self.is_hash(t));
        let ret = dest.ty(b, self.tcx).ty;
        let args_it = args.iter().any(|a| it(a.node.ty(b, self.tcx)));
        let consumes_hash = (["into_iter", "extend", "from_iter"].contains(&l.as_str()) || p == "Iterator" || f.is_local()) && ga.types().any(hs);
        if !args_it && !consumes_hash {
            // the hash table itself, by key
            return args.first().is_some_and(|a| self.is_hash(a.node.ty(b, self.tcx).peel_refs()) && !it(ret)).then(|| (what, Ok("looks up a key".into())));
        }
        if it(ret) {
            // still an iterator; what consumes it is judged
            return None;
        }
        if l == "len" || l == "size_hint" || l == "clone" || l == "drop" {
            return None;
        }
        if f.is_local() && !args_it && args.iter().all(|a| !matches!(a.node.ty(b, self.tcx).peel_refs().kind(), TyKind::Adt(..) if self.is_hash(a.node.ty(b, self.tcx).peel_refs()))) {
            return None;
        }
        let unordered = |t: Ty<'tcx>| {
            let t = t.peel_refs();
            self.is_hash(t) || ["BTreeMap", "BTreeSet", "BinaryHeap"].contains(&tail(&self.adt_name(t)).1.as_str())
        };
        let ok = match l.as_str() {
            "any" | "all" | "count" | "max" | "min" | "sum" | "product" | "is_empty" | "eq" => true,
            "collect" | "from_iter" => unordered(ret) || (tail(&self.adt_name(ret)).1 == "Vec" && self.sorted(b, d, dest.local)),
            "extend" => ga.types().next().is_some_and(|t| unordered(t)),
            "contains" | "contains_key" | "get" | "insert" => true,
            _ => false,
        };
        Some((what, if ok { Ok("the order does not matter".into()) } else { Err("visits entries in the order of a random hash".into()) }))
    }
    fn sorted(&self, b: &Body<'tcx>, d: &Defs, l: Local) -> bool {
        b.basic_blocks.iter().any(|data| {
            let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { return false };
            let Some((f, _)) = callee(b, self.tcx, func) else { return false };
            tail(&self.path(f)).1.starts_with("sort") && args.first().and_then(|a| a.node.place()).is_some_and(|p| {
                let r = base(b, d, p);
                r == l || b.local_decls[r].ty == b.local_decls[l].ty
            })
        })
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Held {
    Moved,
    Empty,
    May,
}

impl<'tcx> Mac<'tcx, '_> {
    fn is_syn_err(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), TyKind::Adt(a, _) if self.tcx.crate_name(a.did().krate).as_str() == "syn" && self.tcx.item_name(a.did()).as_str() == "Error")
    }
    /// a value that is an error
    fn is_err(&self, b: &Body<'tcx>, t: Ty<'tcx>) -> bool {
        match t.kind() {
            TyKind::Adt(a, _) if self.is_syn_err(t) || (a.did().is_local() && a.is_struct() && a.all_fields().count() == 1 && a.all_fields().any(|f| self.is_syn_err(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))) => true,
            // a parameter that is convertible into one
            TyKind::Param(_) => self.env(b).param_env.caller_bounds().any(|c| {
                c.as_trait_clause().is_some_and(|c| {
                    let c = c.skip_binder();
                    c.self_ty() == t && tail(&self.path(c.def_id())).1 == "Into" && c.trait_ref.args.types().nth(1).is_some_and(|t| !matches!(t.kind(), TyKind::Param(_)) && self.is_err(b, t))
                })
            }),
            _ => false,
        }
    }
    /// a value that may hold an error
    fn holds(&self, b: &Body<'tcx>, t: Ty<'tcx>) -> bool {
        if self.is_err(b, t) {
            return true;
        }
        match t.kind() {
            TyKind::Adt(a, ga) => {
                let l = tail(&self.path(a.did())).1;
                if a.did().is_local() {
                    return a.all_fields().any(|f| self.holds(b, self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()));
                }
                match l.as_str() {
                    "Result" => self.holds(b, ga.type_at(1)) || self.holds(b, ga.type_at(0)),
                    "Option" | "Vec" | "VecDeque" | "Box" | "RefCell" | "Cell" | "IntoIter" | "Drain" | "Once" | "Map" | "Enumerate" | "Rev" | "Peekable" | "Fuse" | "Skip" | "Chain" if ga.types().next().is_some() => self.holds(b, ga.type_at(0)),
                    _ => false,
                }
            }
            TyKind::Tuple(ts) => ts.iter().any(|t| self.holds(b, t)),
            TyKind::Array(t, _) => self.holds(b, *t),
            _ => false,
        }
    }

    pub fn errors(&self) {
        let mut n = 0;
        let mut drops = 0;
        for (k, built) in self.fns() {
            if !matches!(self.tcx.def_kind(k.to_def_id()), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let stolen = self.tcx.mir_drops_elaborated_and_const_checked(k);
            if stolen.is_stolen() {
                Rec::new("fatal").s("msg", format!("no drops of {}", self.name(k))).emit();
                continue;
            }
            n += 1;
            drops += self.lost(k, &stolen.borrow());
            self.swallowed(k, built);
        }
        Rec::new("err").n("fns", n).n("drops", drops).emit();
    }

    /// what the parameter's pointee holds when the function returns
    fn leaves(&self, f: DefId, depth: usize) -> Held {
        let Some(k) = f.as_local() else { return Held::May };
        let Some(b) = self.bodies.get(&k) else { return Held::May };
        if depth > 4 {
            return Held::May;
        }
        let st = self.flow(b, depth + 1);
        let mut r = Held::Moved;
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            if matches!(data.terminator().kind, TerminatorKind::Return) {
                if let Some(s) = st.get(&bb) {
                    let mut s = s.clone();
                    self.block(b, &defs(b), bb, &mut s, depth + 1, &mut |_, _, _| {});
                    r = r.max(s.get(&Local::from_usize(1)).copied().unwrap_or(Held::May));
                }
            }
        }
        if r == Held::Moved { Held::May } else { r }
    }

    fn flow(&self, b: &Body<'tcx>, depth: usize) -> HashMap<BasicBlock, BTreeMap<Local, Held>> {
        let d = defs(b);
        let mut st: HashMap<BasicBlock, BTreeMap<Local, Held>> = HashMap::new();
        let mut init = BTreeMap::new();
        for l in b.args_iter() {
            init.insert(l, Held::May);
        }
        st.insert(START_BLOCK, init);
        let mut todo = vec![START_BLOCK];
        while let Some(bb) = todo.pop() {
            let mut s = st[&bb].clone();
            self.block(b, &d, bb, &mut s, depth, &mut |_, _, _| {});
            let refined = self.none_edges(b, &d, bb);
            for t in succ(b, bb) {
                if b.basic_blocks[t].is_cleanup || matches!(b.basic_blocks[bb].terminator().kind, TerminatorKind::FalseEdge { imaginary_target, real_target } if t == imaginary_target && t != real_target) {
                    continue;
                }
                let mut s = s.clone();
                for (l, none) in &refined {
                    if t == *none {
                        s.insert(*l, Held::Empty);
                    }
                }
                let new = match st.get(&t) {
                    None => s.clone(),
                    Some(old) => {
                        let mut m = old.clone();
                        for (k, v) in &s {
                            let e = m.entry(*k).or_insert(Held::Moved);
                            *e = (*e).max(*v);
                        }
                        m
                    }
                };
                if st.get(&t) != Some(&new) {
                    st.insert(t, new);
                    todo.push(t);
                }
            }
        }
        st
    }

    /// switches on whether a value holds an error: the value and the target where it holds none
    fn none_edges(&self, b: &Body<'tcx>, d: &Defs, bb: BasicBlock) -> Vec<(Local, BasicBlock)> {
        let mut out = vec![];
        let TerminatorKind::SwitchInt { discr, targets } = &b.basic_blocks[bb].terminator().kind else { return out };
        let value = |v: u128| {
            let t = targets.target_for_value(v);
            // only if no other value leads there
            (targets.iter().filter(|(_, x)| *x == t).count() + (targets.otherwise() == t) as usize == 1).then_some(t)
        };
        let name = |t: Ty<'tcx>| tail(&self.adt_name(t.peel_refs())).1;
        let holder = |t: Ty<'tcx>| match t.peel_refs().kind() {
            TyKind::Slice(t) => self.holds(b, *t),
            _ => self.holds(b, t.peel_refs()),
        };
        // the variants of a `Result`, `Option` or `ControlFlow` in which it holds nothing
        let empty = |t: Ty<'tcx>| -> Option<u128> {
            let TyKind::Adt(_, ga) = t.peel_refs().kind() else { return None };
            match name(t).as_str() {
                "Option" => Some(0),
                "Result" => (!self.holds(b, ga.type_at(0))).then_some(0),
                _ => None,
            }
        };
        let call = |c: BasicBlock| -> Option<((String, String), Option<Place<'tcx>>, Option<Operand<'tcx>>)> {
            let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind else { return None };
            let (f, _) = callee(b, self.tcx, func)?;
            Some((tail(&self.path(f)), args.first().and_then(|a| a.node.place()), args.get(1).map(|a| a.node.clone())))
        };
        let mut edge = |l: Local, v: u128| {
            if let Some(t) = value(v) {
                out.push((l, t));
            }
        };
        let is = src(b, d, discr);
        match is {
            Src::Assign(loc) => match rvalue(b, loc) {
                Some(Rvalue::Discriminant(p)) => {
                    let t = p.ty(b, self.tcx).ty;
                    if holder(t) {
                        if let Some(v) = empty(t) {
                            edge(base(b, d, *p), v);
                        }
                    }
                    let mut from = src_place(b, d, *p, 0);
                    // `x?`
                    let mut flip = false;
                    if let Src::Call(c) = from {
                        if let Some(((_, l), Some(q), _)) = call(c) {
                            if l == "branch" {
                                flip = name(q.ty(b, self.tcx).ty) == "Option";
                                if !flip {
                                    let qt = q.ty(b, self.tcx).ty;
                                    if holder(qt) && empty(qt) == Some(0) {
                                        edge(p.local, 0);
                                    }
                                }
                                from = src_place(b, d, q, 0);
                            }
                        }
                    }
                    if let Src::Call(c) = from {
                        if let Some(((_, l), Some(q), args)) = call(c) {
                            match l.as_str() {
                                // there is none
                                "as_mut" | "as_ref" | "next" | "next_back" | "pop" | "pop_front" | "pop_back" | "first" | "last" | "split_first" | "split_last" | "first_mut" if holder(q.ty(b, self.tcx).ty) => {
                                    edge(base(b, d, q), if flip { 1 } else { 0 });
                                }
                                // the closure was called and has moved the errors out of what it captures
                                "map_err" | "or_else" => {
                                    for l in args.map(|a| self.emptied(b, d, &a)).unwrap_or_default() {
                                        edge(l, 1);
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                }
                Some(Rvalue::BinaryOp(op, o)) if matches!(op, BinOp::Eq | BinOp::Ne | BinOp::Gt) => {
                    let zero = matches!(&o.1, Operand::Constant(c) if c.const_.try_eval_scalar_int(self.tcx, self.env(b)).is_some_and(|s| s.is_null()));
                    if let (true, Src::Call(c)) = (zero, src(b, d, &o.0)) {
                        if let Some(((_, l), Some(q), _)) = call(c) {
                            if l == "len" && holder(q.ty(b, self.tcx).ty) {
                                edge(base(b, d, q), matches!(op, BinOp::Eq) as u128);
                            }
                        }
                    }
                }
                _ => {}
            },
            Src::Call(c) => {
                if let Some(((_, l), Some(q), _)) = call(c) {
                    let t = q.ty(b, self.tcx).ty;
                    let v = match l.as_str() {
                        "is_none" | "is_empty" => Some(1),
                        "is_some" | "len" => Some(0),
                        "is_ok" => empty(t).map(|_| 1),
                        "is_err" => empty(t),
                        _ => None,
                    };
                    if let (Some(v), true) = (v, holder(t)) {
                        edge(base(b, d, q), v);
                    }
                }
            }
            _ => {}
        }
        out
    }

    /// the holders of errors that a closure captures by reference and moves all errors out of
    fn emptied(&self, b: &Body<'tcx>, d: &Defs, closure: &Operand<'tcx>) -> Vec<Local> {
        let mut out = vec![];
        let Src::Assign(loc) = src(b, d, closure) else { return out };
        let Some(Rvalue::Aggregate(kind, ops)) = rvalue(b, loc) else { return out };
        let AggregateKind::Closure(c, _) = **kind else { return out };
        let Some(cb) = c.as_local().and_then(|c| self.bodies.get(&c).copied()) else { return out };
        let cd = defs(cb);
        let (mut empties, mut other) = (false, false);
        for data in cb.basic_blocks.iter().filter(|x| !x.is_cleanup) {
            let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
            let Some(a) = args.first() else { continue };
            let TyKind::Ref(_, inner, Mutability::Mut) = a.node.ty(cb, self.tcx).kind() else { continue };
            let Some(q) = a.node.place() else { continue };
            if self.holds(cb, *inner) && base(cb, &cd, q) == Local::from_usize(1) {
                let h = callee(cb, self.tcx, func).map_or(Held::May, |(f, _)| if ["take"].contains(&tail(&self.path(f)).1.as_str()) { Held::Empty } else { self.leaves(f, 1) });
                if h == Held::Empty { empties = true } else { other = true }
            }
        }
        if empties && !other {
            for o in ops {
                if let (TyKind::Ref(_, inner, Mutability::Mut), Some(q)) = (o.ty(b, self.tcx).kind(), o.place()) {
                    if self.holds(b, *inner) {
                        out.push(base(b, d, q));
                    }
                }
            }
        }
        out
    }

    /// whether the errors in reach of a function are turned into tokens by it
    fn renders(&self, b: &Body<'tcx>) -> bool {
        let Some(k) = b.source.def_id().as_local() else { return false };
        self.subtree(k).iter().filter_map(|k| self.bodies.get(k).copied()).any(|b| {
            b.basic_blocks.iter().any(|data| {
                let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { return false };
                let is = |f: DefId| ["to_compile_error", "into_compile_error"].contains(&tail(&self.path(f)).1.as_str());
                callee(b, self.tcx, func).is_some_and(|(f, _)| is(f)) || args.iter().any(|a| matches!(a.node.ty(b, self.tcx).kind(), TyKind::FnDef(f, _) if is(*f)))
            })
        })
    }

    fn block(&self, b: &Body<'tcx>, d: &Defs, bb: BasicBlock, s: &mut BTreeMap<Local, Held>, depth: usize, on_drop: &mut dyn FnMut(Place<'tcx>, Span, Held)) {
        let root = |p: Place<'tcx>| base(b, d, p);
        let moved = |o: &Operand<'tcx>, s: &mut BTreeMap<Local, Held>| {
            if let Operand::Move(p) = o {
                if p.projection.is_empty() && self.holds(b, b.local_decls[p.local].ty) {
                    s.insert(p.local, Held::Moved);
                }
            }
        };
        let data = &b.basic_blocks[bb];
        for x in &data.statements {
            let StatementKind::Assign(x) = &x.kind else { continue };
            match &x.1 {
                Rvalue::Ref(_, BorrowKind::Shared, p) if !matches!(s.get(&root(*p)), None | Some(Held::Moved)) && self.renders(b) => {
                    s.insert(root(*p), Held::Empty);
                }
                Rvalue::Use(o, ..) => {
                    let v = match o {
                        Operand::Move(p) | Operand::Copy(p) => s.get(&p.local).copied().unwrap_or(Held::May),
                        _ => Held::May,
                    };
                    moved(o, s);
                    s.insert(if x.0.projection.is_empty() { x.0.local } else { root(x.0) }, v);
                }
                Rvalue::Aggregate(kind, ops) => {
                    let none = matches!(**kind, AggregateKind::Adt(a, v, ..) if tail(&self.path(a)).1 == "Option" && v.as_usize() == 0);
                    for o in ops {
                        moved(o, s);
                    }
                    s.insert(if x.0.projection.is_empty() { x.0.local } else { root(x.0) }, if none { Held::Empty } else { Held::May });
                }
                _ => {}
            }
        }
        let t = data.terminator();
        match &t.kind {
            TerminatorKind::Call { func, args, destination, .. } => {
                let f = callee(b, self.tcx, func);
                let (p, l) = f.map(|(f, _)| tail(&self.path(f))).unwrap_or_default();
                // what was there before
                let old = match (p.as_str(), l.as_str()) {
                    ("Option", "take" | "replace") | ("mem", "take" | "replace") => args.first().and_then(|a| a.node.place()).and_then(|q| s.get(&root(q)).copied()).filter(|h| *h == Held::Empty),
                    _ => None,
                };
                for (i, a) in args.iter().enumerate() {
                    let at = a.node.ty(b, self.tcx);
                    if let TyKind::Ref(_, inner, Mutability::Mut) = at.kind() {
                        if self.holds(b, *inner) {
                            if let Some(q) = a.node.place() {
                                let taken = (p == "Option" && l == "take") || (p == "mem" && l == "take");
                                let v = if taken {
                                    Held::Empty
                                } else if i == 0 {
                                    f.map_or(Held::May, |(f, _)| self.leaves(f, depth))
                                } else {
                                    Held::May
                                };
                                s.insert(root(q), v);
                            }
                        }
                    }
                    moved(&a.node, s);
                }
                // an error prepared in advance tells nothing until it is put somewhere
                let prepared = p == "Error" && ["new", "new_spanned"].contains(&l.as_str()) && self.is_syn_err(destination.ty(b, self.tcx).ty);
                let fresh = args.is_empty() || prepared;
                s.insert(if destination.projection.is_empty() { destination.local } else { root(*destination) }, if fresh { Held::Empty } else { old.unwrap_or(Held::May) });
            }
            TerminatorKind::Drop { place, .. } => {
                let t = place.ty(b, self.tcx).ty;
                if self.holds(b, t) {
                    let h = s.get(&root(*place)).copied().unwrap_or(Held::May);
                    on_drop(*place, data.terminator().source_info.span, h);
                }
            }
            _ => {}
        }
    }

    /// errors that are dropped
    fn lost(&self, k: LocalDefId, b: &Body<'tcx>) -> i64 {
        let st = self.flow(b, 0);
        let d = defs(b);
        let mut n = 0;
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                continue;
            }
            let Some(s) = st.get(&bb) else { continue };
            let mut s = s.clone();
            self.block(b, &d, bb, &mut s, 0, &mut |p, at, h| {
                n += 1;
                let t = p.ty(b, self.tcx).ty;
                let r = if h != Held::May {
                    Ok("holds no error at this point".into())
                } else if (self.is_syn_err(t) && self.replaced(k, b)) || self.superseded(k, b, &d, p) {
                    Ok("a parse error is replaced by another one".into())
                } else {
                    Err(format!("a value of type `{t}`, which may be or hold an error, is dropped"))
                };
                self.ob("C19", k, at, "drop", r);
            });
        }
        n
    }
    /// a closure given to `map_err` or `or_else` in an implementation of `Parse`
    fn replaced(&self, k: LocalDefId, b: &Body<'tcx>) -> bool {
        let root = self.tcx.typeck_root_def_id(k.to_def_id());
        let parse = self.tcx.trait_item_of(root).is_some_and(|t| tail(&self.path(t)) == ("Parse".into(), "parse".into()));
        self.tcx.is_closure_like(k.to_def_id()) && parse && b.arg_count == 2 && self.holds(b, b.return_ty())
    }

    /// in an implementation of `Parse`, an error of one attempt that is dropped where only another error
    /// or the outcome of another attempt is returned
    fn superseded(&self, k: LocalDefId, b: &Body<'tcx>, d: &Defs, p: Place<'tcx>) -> bool {
        if !self.tcx.trait_item_of(k.to_def_id()).is_some_and(|t| tail(&self.path(t)) == ("Parse".into(), "parse".into())) {
            return false;
        }
        let result = |t: Ty<'tcx>| match t.kind() {
            TyKind::Adt(a, ga) => tail(&self.path(a.did())).1 == "Result" && self.is_syn_err(ga.type_at(1)),
            _ => false,
        };
        let l = base(b, d, p);
        if !result(b.local_decls[l].ty) {
            return false;
        }
        // what ends up as the returned value
        let mut out = HashSet::from([RETURN_PLACE]);
        loop {
            let n = out.len();
            for x in b.basic_blocks.iter().flat_map(|x| &x.statements) {
                if let StatementKind::Assign(x) = &x.kind {
                    if let (true, Rvalue::Use(Operand::Move(q), ..)) = (x.0.projection.is_empty() && out.contains(&x.0.local), &x.1) {
                        if q.projection.is_empty() {
                            out.insert(q.local);
                        }
                    }
                }
            }
            if out.len() == n {
                break;
            }
        }
        let mut todo = vec![];
        for bb in b.basic_blocks.indices() {
            for (h, none) in self.none_edges(b, d, bb) {
                if h == l {
                    todo.extend(succ(b, bb).into_iter().filter(|t| *t != none));
                }
            }
        }
        let mut seen = HashSet::new();
        let mut some = false;
        while let Some(bb) = todo.pop() {
            let data = &b.basic_blocks[bb];
            if data.is_cleanup || !seen.insert(bb) {
                continue;
            }
            for x in &data.statements {
                if let StatementKind::Assign(x) = &x.kind {
                    if x.0.projection.is_empty() && out.contains(&x.0.local) {
                        match &x.1 {
                            Rvalue::Aggregate(kind, _) if matches!(**kind, AggregateKind::Adt(_, v, ..) if v.as_usize() == 1) && result(b.local_decls[x.0.local].ty) => some = true,
                            Rvalue::Use(Operand::Move(q), ..) if q.projection.is_empty() && out.contains(&q.local) => {}
                            _ => return false,
                        }
                    }
                }
            }
            if let TerminatorKind::Call { args, destination, .. } = &data.terminator().kind {
                let input = |t: Ty<'tcx>| matches!(t.peel_refs().kind(), TyKind::Adt(a, _) if ["ParseBuffer", "LitStr"].contains(&tail(&self.path(a.did())).1.as_str()));
                if result(destination.ty(b, self.tcx).ty) && args.iter().any(|a| input(a.node.ty(b, self.tcx))) {
                    some = true;
                    continue;
                }
                if out.contains(&destination.local) {
                    return false;
                }
            }
            todo.extend(succ(b, bb));
        }
        some
    }

    /// errors that are handed to something that discards them
    fn swallowed(&self, k: LocalDefId, b: &Body<'tcx>) {
        let d = defs(b);
        let syn_ok = |t: Ty<'tcx>| self.is_syn_err(t) && self.tcx.trait_item_of(self.tcx.typeck_root_def_id(k.to_def_id())).is_some_and(|t| tail(&self.path(t)).0 == "Parse");
        let err_result = |t: Ty<'tcx>| match t.kind() {
            TyKind::Adt(a, ga) if tail(&self.path(a.did())).1 == "Result" => self.holds(b, ga.type_at(1)) && !syn_ok(ga.type_at(1)),
            _ => false,
        };
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                continue;
            }
            let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
            let Some((f, ga)) = callee(b, self.tcx, func) else { continue };
            let at = data.terminator().source_info.span;
            let (p, l) = tail(&self.path(f));
            let first = args.first().map(|a| a.node.ty(b, self.tcx));
            if p == "Result" && first.is_some_and(err_result) {
                let discards = ["ok", "unwrap_or", "unwrap_or_default", "map_or", "is_ok_and", "or", "into_iter", "and", "iter", "flatten"].contains(&l.as_str());
                let r = if discards { Err("the error is discarded".into()) } else { Ok("the error is kept".into()) };
                self.ob("C19", k, at, &format!("{p}::{l}"), r);
            }
            // `filter_map(Result::ok)`
            for a in args.iter() {
                if let TyKind::FnDef(g, gg) = a.node.ty(b, self.tcx).kind() {
                    let (gp, gl) = tail(&self.path(*g));
                    let e = gg.skip_binder().types().nth(1);
                    if gp == "Result" && ["ok", "unwrap_or_default", "is_ok", "into_iter"].contains(&gl.as_str()) && e.is_some_and(|e| self.holds(b, e) && !syn_ok(e)) {
                        self.ob("C19", k, at, &format!("{p}::{l}({gp}::{gl})"), Err("the errors are discarded".into()));
                    }
                }
            }
            // sequences of results or errors
            let item = match (p.as_str(), ga.types().next()) {
                ("Iterator", Some(t)) => self.item(b, t),
                _ => None,
            };
            if let Some(i) = item {
                let res = err_result(i);
                let err = self.is_err(b, i) && !syn_ok(i);
                if res || err {
                    let bad = match l.as_str() {
                        "flatten" | "take" | "take_while" | "skip" | "skip_while" | "step_by" | "map_while" | "find" | "find_map" | "position" | "any" | "all" | "nth" | "last" | "try_for_each" | "try_fold" | "sum" | "product" | "count" | "filter" | "max_by_key" | "min_by_key" | "zip" => true,
                        // stopping at the first error loses the others only if they exist already
                        "collect" => {
                            let short = ga.types().nth(1).is_some_and(|t| err_result(t) || matches!(t.kind(), TyKind::Adt(a, _) if tail(&self.path(a.did())).1 == "Option"));
                            let eager = self.walk_has(ga.type_at(0), &|t| matches!(t.kind(), TyKind::Adt(a, ga) if tail(&self.path(a.did())).1 == "IntoIter" && ga.types().any(|t| err_result(t) || self.is_err(b, t))));
                            short && eager
                        }
                        // outside of a loop, it looks at one of them only
                        "next" | "next_back" => !self.in_loop(b, bb) && !self.holds(b, ga.type_at(0)) && !self.rest_used(b, &d, bb),
                        _ => false,
                    };
                    self.ob("C19", k, at, &format!("{p}::{l}"), if bad { Err("not every error of the sequence is kept".into()) } else { Ok("every error of the sequence is kept".into()) });
                }
            }
            if p == "Iterator" && l == "flat_map" && ga.types().nth(1).is_some_and(err_result) {
                self.ob("C19", k, at, "Iterator::flat_map", Err("the errors are discarded".into()));
            }
        }
    }
    fn item(&self, b: &Body<'tcx>, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        let it = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let assoc = self.tcx.associated_items(it).in_definition_order().find(|a| !a.is_fn())?.def_id;
        let p = Ty::new_projection(self.tcx, ty::IsRigid::No, assoc, [t]);
        self.tcx.try_normalize_erasing_regions(self.env(b), ty::Unnormalized::new_wip(p)).ok()
    }
    /// is the rest of the iterator handed on after one element was taken out of it, unless there was none?
    fn rest_used(&self, b: &Body<'tcx>, d: &Defs, bb: BasicBlock) -> bool {
        let TerminatorKind::Call { args, .. } = &b.basic_blocks[bb].terminator().kind else { return false };
        let Some(it) = args.first().and_then(|a| a.node.place()).map(|p| base(b, d, p)) else { return false };
        let mut seen = HashSet::new();
        let mut todo: Vec<BasicBlock> = succ(b, bb);
        while let Some(x) = todo.pop() {
            let data = &b.basic_blocks[x];
            if data.is_cleanup || !seen.insert(x) {
                continue;
            }
            match &data.terminator().kind {
                TerminatorKind::Call { args, .. } if args.iter().any(|a| a.node.place().is_some_and(|p| base(b, d, p) == it) && !a.node.ty(b, self.tcx).is_ref()) => continue,
                TerminatorKind::Return => return false,
                // there was none
                TerminatorKind::SwitchInt { discr, targets } => {
                    if let Src::Assign(loc) = src(b, d, discr) {
                        if let Some(Rvalue::Discriminant(p)) = rvalue(b, loc) {
                            let mut from = src_place(b, d, *p, 0);
                            let mut none = 0;
                            if let Src::Call(c) = from {
                                if let TerminatorKind::Call { func, args, .. } = &b.basic_blocks[c].terminator().kind {
                                    if let (Some((f, _)), Some(q)) = (callee(b, self.tcx, func), args.first().and_then(|a| a.node.place())) {
                                        if tail(&self.path(f)).1 == "branch" {
                                            from = src_place(b, d, q, 0);
                                            none = 1;
                                        }
                                    }
                                }
                            }
                            if matches!(from, Src::Call(c) if c == bb) {
                                let t = targets.target_for_value(none);
                                todo.extend(targets.all_targets().iter().copied().filter(|x| *x != t));
                                continue;
                            }
                        }
                    }
                    todo.extend(targets.all_targets().iter().copied());
                }
                _ => todo.extend(succ(b, x)),
            }
        }
        true
    }
    pub fn in_loop(&self, b: &Body<'tcx>, bb: BasicBlock) -> bool {
        let mut seen = HashSet::new();
        let mut todo: Vec<BasicBlock> = succ(b, bb);
        while let Some(x) = todo.pop() {
            if x == bb {
                return true;
            }
            if seen.insert(x) {
                todo.extend(succ(b, x));
            }
        }
        false
    }
}

/// a text of characters that may be part of an identifier
#[derive(Clone, Copy)]
struct Shape {
    empty: bool,
    /// may start with a character that cannot start an identifier
    digit: bool,
}
impl Shape {
    fn join(self, o: Shape) -> Shape {
        Shape { empty: self.empty || o.empty, digit: self.digit || o.digit }
    }
    fn then(self, o: Shape) -> Shape {
        Shape { empty: self.empty && o.empty, digit: self.digit || (self.empty && o.digit) }
    }
}

enum Piece {
    Start,
    Cont,
    Text(Shape),
    Bad(String),
}

#[derive(Default)]
struct Text {
    note: Option<String>,
    fns: HashSet<LocalDefId>,
    chars: bool,
    counter: bool,
    bad: Option<String>,
}
impl Text {
    fn fail(&mut self, e: &str) {
        self.bad.get_or_insert(e.to_string());
    }
}

/// further functions that panic for some arguments
const MORE: &[(&str, &str)] = &[
    ("IndexMap", "shift_insert"), ("IndexMap", "insert_before"), ("IndexMap", "move_index"), ("IndexMap", "swap_indices"), ("IndexMap", "split_off"), ("IndexMap", "drain"),
    ("IndexSet", "shift_insert"), ("IndexSet", "insert_before"), ("IndexSet", "move_index"), ("IndexSet", "swap_indices"), ("IndexSet", "split_off"), ("IndexSet", "drain"),
    ("char", "from_digit"), ("char", "to_digit"), ("LocalKey", "with"), ("thread", "spawn"), ("Ord", "clamp"), ("String", "insert_str"), ("String", "truncate"), ("String", "replace_range"),
    ("Vec", "truncate_front"), ("hint", "unreachable_unchecked"), ("Option", "unwrap_unchecked"), ("Result", "unwrap_unchecked"),
];

/// types whose tokens parse again as what they are
const NODES: &[&str] = &[
    "Type", "Path", "Ident", "Lifetime", "Index", "StaticIdent", "Generics", "GenericParam", "GenericArgument", "TypeParam", "TypeParamBound", "TraitBound", "WherePredicate", "WhereClause",
    "Member", "Field", "Expr", "Lit", "LitStr", "LitInt", "PathSegment", "usize", "u32", "u64",
];

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, bodies: &Bodies<'tcx>) {
    let m = Mac { tcx, bodies };
    let fns = m.fns();
    let calls: usize = fns.iter().map(|(_, b)| b.basic_blocks.iter().filter(|x| matches!(x.terminator().kind, TerminatorKind::Call { .. })).count()).sum();
    Rec::new("mac").n("fns", fns.len() as i64).n("calls", calls as i64).emit();
    m.panics();
    m.determinism();
    m.errors();
    crate::term::run(&m);
}
