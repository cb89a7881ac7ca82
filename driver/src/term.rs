//! Termination of the macro crate (C25): recursion descends, loops are driven by something finite,
//! endless searches find something.
use crate::mac::{base, callee, defs, rvalue, src, src_place, succ, Def, Defs, Mac, Src};
use crate::panics::tail;
use crate::report::Rec;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyKind};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// what a function is given: a parameter or something a closure captures
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Org {
    Param(usize),
    Cap(usize),
    /// the value a local had before
    Old,
}

/// what a value is surely a part of; `true`: a proper part (nested less deeply)
#[derive(Clone, PartialEq, Debug)]
enum Prov {
    /// holds no syntax
    Any,
    Of(BTreeMap<Org, bool>),
}
use Prov::*;

impl Prov {
    fn unknown() -> Prov {
        Of(BTreeMap::new())
    }
    fn meet(self, o: Prov) -> Prov {
        match (self, o) {
            (Any, x) | (x, Any) => x,
            (Of(a), Of(b)) => Of(a.into_iter().filter_map(|(k, s)| b.get(&k).map(|t| (k, s && *t))).collect()),
        }
    }
    fn proper(self, yes: bool) -> Prov {
        match self {
            Of(m) if yes => Of(m.into_keys().map(|k| (k, true)).collect()),
            x => x,
        }
    }
    /// what is known in the caller, from what is known in the callee
    fn within(self, f: &dyn Fn(Org) -> Prov) -> Prov {
        let Of(m) = self else { return Any };
        let mut out: BTreeMap<Org, bool> = BTreeMap::new();
        for (k, s) in m {
            match f(k).proper(s) {
                Any => return Any,
                Of(x) => {
                    for (k, s) in x {
                        *out.entry(k).or_default() |= s;
                    }
                }
            }
        }
        Of(out)
    }
}

type Arcs = BTreeMap<(Org, Org), bool>;
struct Edge {
    to: LocalDefId,
    arcs: Arcs,
    at: Span,
}

struct Cx<'tcx> {
    k: LocalDefId,
    b: &'tcx Body<'tcx>,
    d: Defs,
    closure: bool,
    reach: RefCell<HashMap<BasicBlock, HashSet<BasicBlock>>>,
}

pub struct Term<'tcx, 'a> {
    m: &'a Mac<'tcx, 'a>,
    memo: RefCell<HashMap<Ty<'tcx>, bool>>,
    rets: RefCell<HashMap<LocalDefId, Option<Prov>>>,
}

const LEAVES: &[&str] = &["Ident", "Span", "Lifetime", "Literal", "Punct", "LitStr", "LitInt", "Index"];
const MEMBER: &[&str] = &["contains", "contains_key"];
const WALKS: &[&str] = &["visit", "fold", "visit_mut", "Visit", "Fold", "VisitMut"];

impl<'tcx> Term<'tcx, '_> {
    fn cx(&self, k: LocalDefId) -> Option<Cx<'tcx>> {
        let b = *self.m.bodies.get(&k)?;
        Some(Cx { k, b, d: defs(b), closure: self.m.tcx.is_closure_like(k.to_def_id()), reach: RefCell::default() })
    }
    fn krate(&self, d: DefId) -> String {
        self.m.tcx.crate_name(d.krate).to_string()
    }
    /// a type of the syntax tree or of its tokens
    fn syntax(&self, d: DefId) -> bool {
        ["syn", "proc_macro2", "proc_macro"].contains(&self.krate(d).as_str())
    }
    fn std(&self, d: DefId) -> bool {
        ["core", "alloc", "std", "indexmap"].contains(&self.krate(d).as_str())
    }

    /// may a value of this type hold syntax that is nested to any depth?
    fn content(&self, t: Ty<'tcx>) -> bool {
        let t = self.m.tcx.erase_and_anonymize_regions(t);
        if let Some(r) = self.memo.borrow().get(&t) {
            return *r;
        }
        let mut seen = HashSet::new();
        let r = self.deeply(t, &mut seen);
        self.memo.borrow_mut().insert(t, r);
        r
    }
    fn deeply(&self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> bool {
        if !seen.insert(t) || seen.len() > 800 {
            return false;
        }
        let tcx = self.m.tcx;
        match t.kind() {
            TyKind::Adt(a, ga) => {
                let (_, l) = tail(&self.m.path(a.did()));
                if self.syntax(a.did()) {
                    if LEAVES.contains(&l.as_str()) {
                        return false;
                    }
                    if ["Type", "TokenStream", "TokenTree", "Group", "Path", "Expr", "ParseBuffer"].contains(&l.as_str()) {
                        return true;
                    }
                }
                let inside = !self.std(a.did());
                ga.types().any(|t| self.deeply(t, seen)) || inside && a.all_fields().any(|f| self.deeply(f.ty(tcx, ga).skip_norm_wip(), seen))
            }
            TyKind::Ref(_, t, _) | TyKind::Slice(t) | TyKind::Array(t, _) | TyKind::RawPtr(t, _) => self.deeply(*t, seen),
            TyKind::Tuple(ts) => ts.iter().any(|t| self.deeply(t, seen)),
            TyKind::Alias(_, a) => {
                if let ty::AliasTyKind::Opaque { def_id } = a.kind {
                    if def_id.is_local() {
                        return self.deeply(tcx.type_of(def_id).instantiate(tcx, a.args).skip_norm_wip(), seen);
                    }
                }
                true
            }
            TyKind::Param(_) | TyKind::Dynamic(..) => true,
            _ => false,
        }
    }

    fn leads(&self, c: &Cx<'tcx>, from: BasicBlock, to: BasicBlock) -> bool {
        if from == to {
            return true;
        }
        let mut r = c.reach.borrow_mut();
        r.entry(from)
            .or_insert_with(|| {
                let mut seen = HashSet::new();
                let mut todo = succ(c.b, from);
                while let Some(x) = todo.pop() {
                    if !c.b.basic_blocks[x].is_cleanup && seen.insert(x) {
                        todo.extend(succ(c.b, x));
                    }
                }
                seen
            })
            .contains(&to)
    }

    // ------------------------------------------------------------ parts

    fn operand(&self, c: &Cx<'tcx>, o: &Operand<'tcx>, at: BasicBlock, old: Option<Local>, seen: &mut Vec<Local>) -> Prov {
        match o.place() {
            Some(p) => self.place(c, p, at, old, seen),
            None if self.content(o.ty(c.b, self.m.tcx)) => Prov::unknown(),
            None => Any,
        }
    }
    fn place(&self, c: &Cx<'tcx>, p: Place<'tcx>, at: BasicBlock, old: Option<Local>, seen: &mut Vec<Local>) -> Prov {
        let tcx = self.m.tcx;
        if !self.content(p.ty(c.b, tcx).ty) {
            return Any;
        }
        let mut proper = false;
        let mut cap = None;
        for (i, (q, e)) in p.iter_projections().enumerate() {
            if let ProjectionElem::Field(f, _) = e {
                match q.ty(c.b, tcx).ty.kind() {
                    TyKind::Adt(a, _) if self.syntax(a.did()) => proper = true,
                    TyKind::Closure(x, _) if c.closure && p.local.index() == 1 && *x == c.k.to_def_id() => cap = Some(f.index()),
                    // a component of a tuple that was put together here
                    TyKind::Tuple(_) if i == 0 => {
                        if let [Def::Assign(loc)] = &c.d.defs[p.local][..] {
                            if let Some(Rvalue::Aggregate(_, os)) = rvalue(c.b, *loc) {
                                if let Some(q) = os.get(f).and_then(|o| o.place()) {
                                    let rest: Vec<_> = q.projection.iter().chain(p.projection.iter().skip(1)).collect();
                                    return self.place(c, Place { local: q.local, projection: tcx.mk_place_elems(&rest) }, loc.block, old, seen);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        match cap {
            Some(i) => Of(BTreeMap::from([(Org::Cap(i), proper)])),
            None => self.local(c, p.local, at, old, seen).proper(proper),
        }
    }
    fn local(&self, c: &Cx<'tcx>, l: Local, at: BasicBlock, old: Option<Local>, seen: &mut Vec<Local>) -> Prov {
        if old == Some(l) && !seen.is_empty() {
            return Of(BTreeMap::from([(Org::Old, false)]));
        }
        if seen.contains(&l) {
            // a part of itself
            return Any;
        }
        if seen.len() > 60 {
            return Prov::unknown();
        }
        seen.push(l);
        let mut out = Any;
        if l.index() >= 1 && l.index() <= c.b.arg_count {
            out = Of(BTreeMap::from([(Org::Param(l.index()), false)]));
        }
        for x in &c.d.defs[l] {
            let bb = match x {
                Def::Call(bb) => *bb,
                Def::Assign(loc) => loc.block,
            };
            if !self.leads(c, bb, at) {
                continue;
            }
            let p = match x {
                Def::Call(bb) => self.result(c, *bb, old, seen),
                Def::Assign(loc) => self.rvalue(c, rvalue(c.b, *loc), *loc, old, seen),
            };
            out = out.meet(p);
        }
        // what is written into it
        if out != Any {
            for (bb, data) in c.b.basic_blocks.iter_enumerated() {
                if data.is_cleanup || !self.leads(c, bb, at) {
                    continue;
                }
                for (i, s) in data.statements.iter().enumerate() {
                    if let StatementKind::Assign(x) = &s.kind {
                        if !x.0.projection.is_empty() && (x.0.local == l || base(c.b, &c.d, x.0) == l) && self.content(x.0.ty(c.b, self.m.tcx).ty) {
                            out = out.meet(self.rvalue(c, Some(&x.1), Location { block: bb, statement_index: i }, old, seen));
                        }
                    }
                }
                if bb != at {
                    if let TerminatorKind::Call { func, args, .. } = &data.terminator().kind {
                        if let Some((f, _)) = callee(c.b, self.m.tcx, func) {
                            out = out.meet(self.written(c, f, args, l, bb, old, seen));
                        }
                    }
                }
            }
        }
        seen.pop();
        out
    }
    /// what a call puts into a local that it is given by `&mut`
    #[allow(clippy::too_many_arguments)]
    fn written(&self, c: &Cx<'tcx>, f: DefId, args: &[rustc_span::Spanned<Operand<'tcx>>], l: Local, bb: BasicBlock, old: Option<Local>, seen: &mut Vec<Local>) -> Prov {
        let mut out = Any;
        for (i, a) in args.iter().enumerate() {
            let t = a.node.ty(c.b, self.m.tcx);
            let TyKind::Ref(_, t, Mutability::Mut) = t.kind() else { continue };
            if !self.content(*t) || a.node.place().is_none_or(|p| base(c.b, &c.d, p) != l) {
                continue;
            }
            if self.std(f) || self.syntax(f) && tail(&self.m.path(f)).0 == "Punctuated" {
                for (j, a) in args.iter().enumerate() {
                    if i != j {
                        out = out.meet(self.operand(c, &a.node, bb, old, seen));
                    }
                }
            } else if i > 0 || !c.b.local_decls[l].is_user_variable() && l.index() > c.b.arg_count {
                out = Prov::unknown();
            }
        }
        out
    }
    fn rvalue(&self, c: &Cx<'tcx>, r: Option<&Rvalue<'tcx>>, at: Location, old: Option<Local>, seen: &mut Vec<Local>) -> Prov {
        match r {
            Some(Rvalue::Use(o, ..) | Rvalue::Cast(_, o, _)) => self.operand(c, o, at.block, old, seen),
            Some(Rvalue::Ref(_, _, p) | Rvalue::CopyForDeref(p)) => self.place(c, *p, at.block, old, seen),
            Some(Rvalue::Aggregate(a, os)) => {
                if let AggregateKind::Adt(d, ..) = **a {
                    if self.syntax(d) && os.iter().any(|o| self.content(o.ty(c.b, self.m.tcx))) {
                        return Prov::unknown();
                    }
                }
                let mut out = Any;
                for o in os {
                    out = out.meet(self.operand(c, o, at.block, old, seen));
                }
                out
            }
            _ => Any,
        }
    }
    /// the result of a call
    fn result(&self, c: &Cx<'tcx>, bb: BasicBlock, old: Option<Local>, seen: &mut Vec<Local>) -> Prov {
        let TerminatorKind::Call { func, args, destination, .. } = &c.b.basic_blocks[bb].terminator().kind else { return Prov::unknown() };
        if !self.content(destination.ty(c.b, self.m.tcx).ty) {
            return Any;
        }
        let Some((f, ga)) = callee(c.b, self.m.tcx, func) else { return Prov::unknown() };
        let (p, l) = tail(&self.m.path(f));
        let f = self.resolve(c, f, ga);
        if let Some(g) = f.as_local().filter(|g| self.m.bodies.contains_key(g)) {
            let Some(r) = self.ret(g) else { return Prov::unknown() };
            let ps: Vec<Prov> = args.iter().map(|a| self.operand(c, &a.node, bb, old, seen)).collect();
            return r.within(&|o| match o {
                Org::Param(i) => ps.get(i - 1).cloned().unwrap_or(Prov::unknown()),
                _ => Prov::unknown(),
            });
        }
        let container = ["Punctuated", "Vec", "VecDeque", "Option", "IndexMap", "IndexSet", "TokenStream"].contains(&tail(&self.m.adt_name(destination.ty(c.b, self.m.tcx).ty)).1.as_str());
        if self.std(f) {
            if ["From", "Into", "TryFrom", "TryInto", "FromStr", "str"].contains(&p.as_str()) && !container && l != "clone" {
                return Prov::unknown();
            }
            if args.is_empty() && !container {
                return Prov::unknown();
            }
        } else if self.syntax(f) {
            let bad = ["parse", "fold", "visit", "from", "new", "call", "step", "unraw"].iter().any(|x| l.starts_with(x)) || args.is_empty() && !container;
            if bad && !(container && (l == "new" || l == "from_iter")) {
                return Prov::unknown();
            }
        } else if !(l == "to_token_stream" || l == "into_token_stream") {
            return Prov::unknown();
        }
        let makes = ["map", "filter_map", "flat_map", "and_then", "find_map", "scan", "then", "map_or", "map_or_else", "map_while", "or_else", "unwrap_or_else", "unwrap_or", "then_some", "get_or_insert_with"].contains(&l.as_str());
        let keeps = ["map_or", "or_else", "unwrap_or_else", "unwrap_or", "get_or_insert_with"].contains(&l.as_str());
        let mut out = Any;
        let mut made = false;
        let others = self.others(c, args, bb, old, seen);
        for a in args.iter() {
            let t = a.node.ty(c.b, self.m.tcx);
            let g = match t.kind() {
                TyKind::Closure(g, _) | TyKind::FnDef(g, _) => *g,
                _ => continue,
            };
            // a constructor
            if matches!(self.m.tcx.def_kind(g), DefKind::Ctor(..)) {
                made = true;
                out = out.meet(if self.syntax(g) { Prov::unknown() } else { others.clone() });
                continue;
            }
            if matches!(t.kind(), TyKind::FnDef(..)) && g.as_local().is_none_or(|g| !self.m.bodies.contains_key(&g)) {
                if self.content(t.fn_sig(self.m.tcx).output().skip_binder()) {
                    made = true;
                    out = out.meet(if self.std(g) { others.clone() } else { Prov::unknown() });
                }
                continue;
            }
            let Some(g) = g.as_local() else { continue };
            let Some(gb) = self.m.bodies.get(&g) else { continue };
            if !self.content(gb.local_decls[RETURN_PLACE].ty) {
                continue;
            }
            made = true;
            let caps = self.captures(c, a.node.place(), old, seen);
            let r = self.ret(g).unwrap_or(Prov::unknown());
            out = out.meet(r.within(&|o| match o {
                Org::Cap(i) => caps.get(i).cloned().unwrap_or(Prov::unknown()),
                _ => others.clone(),
            }));
        }
        if !(made && makes) || keeps {
            out = out.meet(others);
        }
        out
    }
    /// everything else that is handed to a call along with its functions
    fn others(&self, c: &Cx<'tcx>, args: &[rustc_span::Spanned<Operand<'tcx>>], bb: BasicBlock, old: Option<Local>, seen: &mut Vec<Local>) -> Prov {
        let mut out = Any;
        for a in args {
            if !matches!(a.node.ty(c.b, self.m.tcx).kind(), TyKind::Closure(..) | TyKind::FnDef(..)) {
                out = out.meet(self.operand(c, &a.node, bb, old, seen));
            }
        }
        out
    }
    fn captures(&self, c: &Cx<'tcx>, p: Option<Place<'tcx>>, old: Option<Local>, seen: &mut Vec<Local>) -> Vec<Prov> {
        let Some(mut p) = p else { return vec![] };
        for _ in 0..10 {
            let [Def::Assign(loc)] = &c.d.defs[p.local][..] else { return vec![] };
            match rvalue(c.b, *loc) {
                Some(Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..)) | Some(Rvalue::Ref(_, _, q)) => p = *q,
                Some(Rvalue::Aggregate(_, os)) => return os.iter().map(|o| self.operand(c, o, loc.block, old, seen)).collect(),
                _ => return vec![],
            }
        }
        vec![]
    }
    /// what the result of a function is a part of
    fn ret(&self, g: LocalDefId) -> Option<Prov> {
        if let Some(r) = self.rets.borrow().get(&g) {
            // under way: the result of a call of itself
            return Some(r.clone().unwrap_or(Any));
        }
        self.rets.borrow_mut().insert(g, None);
        let c = self.cx(g)?;
        let mut out = Any;
        for (bb, data) in c.b.basic_blocks.iter_enumerated() {
            if matches!(data.terminator().kind, TerminatorKind::Return) {
                out = out.meet(self.place(&c, Place::return_place(), bb, None, &mut vec![]));
            }
        }
        self.rets.borrow_mut().insert(g, Some(out.clone()));
        Some(out)
    }
    fn resolve(&self, c: &Cx<'tcx>, f: DefId, ga: ty::GenericArgsRef<'tcx>) -> DefId {
        let ga = self.m.tcx.erase_and_anonymize_regions(ga);
        match Instance::try_resolve(self.m.tcx, self.m.env(c.b), f, ga) {
            Ok(Some(i)) => i.def_id(),
            _ => f,
        }
    }

    // ------------------------------------------------------------ calls

    /// the methods of the impls of a trait (for a type, if it is known)
    fn methods(&self, tr: DefId, of: Option<Ty<'tcx>>) -> Vec<LocalDefId> {
        let tcx = self.m.tcx;
        let mut out = vec![];
        for k in self.m.bodies.keys() {
            let Some(i) = tcx.opt_parent(k.to_def_id()) else { continue };
            if !matches!(tcx.def_kind(i), DefKind::Impl { of_trait: true }) || tcx.impl_trait_ref(i).skip_binder().def_id != tr {
                continue;
            }
            let st = tcx.impl_trait_ref(i).skip_binder().self_ty();
            let same = match (of.map(|t| t.peel_refs().kind()), st.peel_refs().kind()) {
                (Some(TyKind::Adt(a, _)), TyKind::Adt(x, _)) => a.did() == x.did(),
                (Some(TyKind::Adt(..)), TyKind::Param(_)) | (None, _) | (Some(TyKind::Param(_) | TyKind::Alias(..) | TyKind::Dynamic(..)), _) => true,
                (Some(_), TyKind::Param(_)) => true,
                (Some(_), _) => false,
            };
            if same {
                out.push(*k);
            }
        }
        out
    }

    fn edges(&self, k: LocalDefId) -> Vec<Edge> {
        let Some(c) = self.cx(k) else { return vec![] };
        let tcx = self.m.tcx;
        let mut out = vec![];
        for (bb, data) in c.b.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                continue;
            }
            // closures that are not handed to anything here
            for s in &data.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    if let Rvalue::Aggregate(a, os) = &x.1 {
                        if let AggregateKind::Closure(g, _) = **a {
                            let mut arcs = Arcs::new();
                            for (i, o) in os.iter_enumerated() {
                                let p = self.operand(&c, o, bb, None, &mut vec![]);
                                add(&mut arcs, p, Org::Cap(i.index()));
                            }
                            let gl = g.expect_local();
                            for (j, p) in self.given(&c, x.0.local, gl).into_iter().enumerate() {
                                add(&mut arcs, p, Org::Param(j + 2));
                            }
                            out.push(Edge { to: gl, arcs, at: s.source_info.span });
                        }
                    }
                }
            }
            let t = data.terminator();
            let TerminatorKind::Call { func, args, .. } = &t.kind else { continue };
            let at = t.source_info.span;
            // functions handed to something
            for a in args.iter() {
                if let TyKind::FnDef(g, _) = a.node.ty(c.b, tcx).kind() {
                    if let Some(g) = g.as_local().filter(|g| self.m.bodies.contains_key(g)) {
                        let p = self.others(&c, args, bb, None, &mut vec![]);
                        let n = self.m.bodies[&g].arg_count;
                        let mut arcs = Arcs::new();
                        for j in 1..=n {
                            add(&mut arcs, p.clone(), Org::Param(j));
                        }
                        out.push(Edge { to: g, arcs, at });
                    }
                }
            }
            let Some((f, ga)) = callee(c.b, tcx, func) else { continue };
            let (pm, _) = tail(&self.m.path(f));
            let g = self.resolve(&c, f, ga);
            if let Some(g) = g.as_local().filter(|g| self.m.bodies.contains_key(g)) {
                out.push(Edge { to: g, arcs: self.handed(&c, args, bb), at });
                continue;
            }
            if let Some(tr) = tcx.trait_of_assoc(f).filter(|t| t.is_local()) {
                for g in self.methods(tr, ga.types().next()) {
                    if tcx.item_name(g.to_def_id()) == tcx.item_name(f) {
                        out.push(Edge { to: g, arcs: self.handed(&c, args, bb), at });
                    }
                }
                continue;
            }
            // `syn` walks through a node
            if self.syntax(f) && WALKS.contains(&pm.as_str()) {
                for tr in self.walkers(&pm) {
                    for g in self.methods(tr, ga.types().next()) {
                        let mut arcs = Arcs::new();
                        if let (Some(v), Some(n)) = (args.first(), args.get(1)) {
                            add(&mut arcs, self.operand(&c, &v.node, bb, None, &mut vec![]), Org::Param(1));
                            add(&mut arcs, self.operand(&c, &n.node, bb, None, &mut vec![]).proper(true), Org::Param(2));
                        }
                        out.push(Edge { to: g, arcs, at });
                    }
                }
                continue;
            }
            // what a foreign function may call on the crate's own types
            let own: HashSet<Ty<'tcx>> = ga.types().flat_map(|t| t.walk()).filter_map(|a| a.as_type()).filter(|t| matches!(t.kind(), TyKind::Adt(a, _) if a.did().is_local())).collect();
            for t in own {
                for k in self.m.bodies.keys() {
                    let Some(i) = tcx.opt_parent(k.to_def_id()) else { continue };
                    if !matches!(tcx.def_kind(i), DefKind::Impl { of_trait: true }) || self.m.derived(*k) {
                        continue;
                    }
                    let tr = tcx.impl_trait_ref(i).skip_binder();
                    let is = |x: Ty<'tcx>| matches!((x.peel_refs().kind(), t.kind()), (TyKind::Adt(a, _), TyKind::Adt(b, _)) if a.did() == b.did());
                    if is(tr.self_ty()) && self.calls_trait(f, tr.def_id) {
                        out.push(Edge { to: *k, arcs: Arcs::new(), at });
                    }
                }
            }
        }
        out
    }
    /// is the trait among the bounds of a foreign function (or the trait the function belongs to)?
    fn calls_trait(&self, f: DefId, tr: DefId) -> bool {
        let tcx = self.m.tcx;
        if tcx.trait_of_assoc(f) == Some(tr) {
            return true;
        }
        let mut todo: Vec<DefId> = vec![f];
        let mut seen = HashSet::new();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            for (p, _) in tcx.clauses_of(x).instantiate_identity(tcx) {
                let p = p.skip_norm_wip();
                if let Some(t) = p.as_trait_clause() {
                    let d = t.def_id();
                    if d == tr {
                        return true;
                    }
                    if seen.len() < 60 {
                        todo.push(d);
                    }
                }
            }
        }
        false
    }
    fn walkers(&self, pm: &str) -> Vec<DefId> {
        let tcx = self.m.tcx;
        let mut out = HashSet::new();
        for k in self.m.bodies.keys() {
            let Some(i) = tcx.opt_parent(k.to_def_id()) else { continue };
            if matches!(tcx.def_kind(i), DefKind::Impl { of_trait: true }) {
                let d = tcx.impl_trait_ref(i).skip_binder().def_id;
                let l = tcx.item_name(d).to_string();
                let want = match pm {
                    "visit" | "Visit" => "Visit",
                    "visit_mut" | "VisitMut" => "VisitMut",
                    _ => "Fold",
                };
                if self.syntax(d) && l == want {
                    out.insert(d);
                }
            }
        }
        out.into_iter().collect()
    }
    fn handed(&self, c: &Cx<'tcx>, args: &[rustc_span::Spanned<Operand<'tcx>>], bb: BasicBlock) -> Arcs {
        let mut arcs = Arcs::new();
        for (j, a) in args.iter().enumerate() {
            add(&mut arcs, self.operand(c, &a.node, bb, None, &mut vec![]), Org::Param(j + 1));
        }
        arcs
    }
    /// what a closure held by a local is called with
    fn given(&self, c: &Cx<'tcx>, l: Local, g: LocalDefId) -> Vec<Prov> {
        let n = self.m.bodies[&g].arg_count - 1;
        let mut out = vec![Any; n];
        let mut hit = false;
        for (bb, data) in c.b.basic_blocks.iter_enumerated() {
            let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
            let Some(j) = args.iter().position(|a| {
                a.node.place().is_some_and(|p| p.local == l || matches!(a.node.ty(c.b, self.m.tcx).peel_refs().kind(), TyKind::Closure(x, _) if *x == g.to_def_id()))
            }) else {
                continue;
            };
            hit = true;
            let Some((f, ga)) = callee(c.b, self.m.tcx, func) else { return vec![Prov::unknown(); n] };
            let (p, m) = tail(&self.m.path(f));
            let ps: Vec<Prov> = if j == 0 && m.starts_with("call") && p.starts_with("Fn") {
                // called right here, with a tuple of arguments
                let tup = args.get(1).and_then(|a| a.node.place());
                (0..n)
                    .map(|i| match tup {
                        Some(q) => match &c.d.defs[q.local][..] {
                            [Def::Assign(loc)] => match rvalue(c.b, *loc) {
                                Some(Rvalue::Aggregate(_, os)) if i < os.len() => self.operand(c, &os.raw[i], loc.block, None, &mut vec![]),
                                _ => Prov::unknown(),
                            },
                            _ => Prov::unknown(),
                        },
                        None => Prov::unknown(),
                    })
                    .collect()
            } else {
                let h = self.resolve(c, f, ga);
                match h.as_local().filter(|h| self.m.bodies.contains_key(h)) {
                    Some(h) => {
                        let given: Vec<Prov> = args.iter().map(|a| self.operand(c, &a.node, bb, None, &mut vec![])).collect();
                        self.passes(h, j, n, 0)
                            .into_iter()
                            .map(|p| {
                                p.within(&|o| match o {
                                    Org::Param(i) => given.get(i - 1).cloned().unwrap_or(Prov::unknown()),
                                    _ => Prov::unknown(),
                                })
                            })
                            .collect()
                    }
                    None => vec![self.others(c, args, bb, None, &mut vec![]); n],
                }
            };
            for (o, p) in out.iter_mut().zip(ps) {
                *o = std::mem::replace(o, Any).meet(p);
            }
        }
        if hit {
            out
        } else {
            vec![Prov::unknown(); n]
        }
    }
    /// what a function calls its `j`-th argument with
    fn passes(&self, h: LocalDefId, j: usize, n: usize, depth: usize) -> Vec<Prov> {
        let unknown = vec![Prov::unknown(); n];
        let Some(c) = self.cx(h).filter(|_| depth < 4) else { return unknown };
        let l = Local::from_usize(j + 1);
        let mut out = vec![Any; n];
        for (bb, data) in c.b.basic_blocks.iter_enumerated() {
            let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
            let Some(i) = args.iter().position(|a| a.node.place().is_some_and(|p| base(c.b, &c.d, p) == l)) else { continue };
            let Some((f, ga)) = callee(c.b, self.m.tcx, func) else { return unknown };
            let (p, m) = tail(&self.m.path(f));
            let ps: Vec<Prov> = if i == 0 && m.starts_with("call") && p.starts_with("Fn") {
                let Some(q) = args.get(1).and_then(|a| a.node.place()) else { return unknown };
                let [Def::Assign(loc)] = &c.d.defs[q.local][..] else { return unknown };
                let Some(Rvalue::Aggregate(_, os)) = rvalue(c.b, *loc) else { return unknown };
                os.iter().map(|o| self.operand(&c, o, loc.block, None, &mut vec![])).collect()
            } else {
                let g = self.resolve(&c, f, ga);
                match g.as_local().filter(|g| self.m.bodies.contains_key(g)) {
                    Some(g) => {
                        let given: Vec<Prov> = args.iter().map(|a| self.operand(&c, &a.node, bb, None, &mut vec![])).collect();
                        self.passes(g, i, n, depth + 1)
                            .into_iter()
                            .map(|p| {
                                p.within(&|o| match o {
                                    Org::Param(i) => given.get(i - 1).cloned().unwrap_or(Prov::unknown()),
                                    _ => Prov::unknown(),
                                })
                            })
                            .collect()
                    }
                    None => {
                        let rest: Vec<_> = args.iter().enumerate().filter(|(x, _)| *x != i).map(|(_, a)| a.clone()).collect();
                        vec![self.others(&c, &rest, bb, None, &mut vec![]); n]
                    }
                }
            };
            for (o, p) in out.iter_mut().zip(ps) {
                *o = std::mem::replace(o, Any).meet(p);
            }
        }
        out
    }

    // ------------------------------------------------------------ recursion

    fn recursion(&self) -> (usize, usize) {
        let ks: Vec<LocalDefId> = self.m.fns().into_iter().map(|k| k.0).collect();
        let graph: HashMap<LocalDefId, Vec<Edge>> = ks.iter().map(|k| (*k, self.edges(*k))).collect();
        let n = graph.values().map(|e| e.len()).sum();
        let reach: HashMap<LocalDefId, HashSet<LocalDefId>> = ks
            .iter()
            .map(|k| {
                let mut seen = HashSet::new();
                let mut todo: Vec<LocalDefId> = graph[k].iter().map(|e| e.to).collect();
                while let Some(x) = todo.pop() {
                    if seen.insert(x) {
                        todo.extend(graph.get(&x).into_iter().flatten().map(|e| e.to));
                    }
                }
                (*k, seen)
            })
            .collect();
        let mut done = HashSet::new();
        let mut groups = 0;
        for k in &ks {
            if !reach[k].contains(k) || !done.insert(*k) {
                continue;
            }
            groups += 1;
            let scc: Vec<LocalDefId> = ks.iter().copied().filter(|x| x == k || reach[k].contains(x) && reach.get(x).is_some_and(|r| r.contains(k))).collect();
            done.extend(scc.iter().copied());
            self.descends(&scc, &graph);
        }
        (n, groups)
    }
    /// size-change termination of a group of functions that call each other
    fn descends(&self, scc: &[LocalDefId], graph: &HashMap<LocalDefId, Vec<Edge>>) {
        type G = (LocalDefId, LocalDefId, Vec<((Org, Org), bool)>);
        let direct: Vec<(LocalDefId, &Edge)> = scc.iter().flat_map(|f| graph[f].iter().filter(|e| scc.contains(&e.to)).map(|e| (*f, e))).collect();
        let mut all: HashSet<G> = HashSet::new();
        let mut todo: Vec<(G, usize)> = direct.iter().enumerate().map(|(i, (f, e))| ((*f, e.to, e.arcs.iter().map(|(a, s)| (*a, *s)).collect()), i)).collect();
        let first: Vec<G> = todo.iter().map(|x| x.0.clone()).collect();
        let mut bad: BTreeSet<usize> = BTreeSet::new();
        let mut over = false;
        while let Some((g, origin)) = todo.pop() {
            if !all.insert(g.clone()) {
                continue;
            }
            if all.len() > 20000 {
                over = true;
                break;
            }
            if g.0 == g.1 {
                let twice = then(&g.2, &g.2);
                if twice == g.2 && !g.2.iter().any(|((a, b), s)| a == b && *s) {
                    bad.insert(origin);
                }
            }
            for h in &first {
                if h.0 == g.1 {
                    todo.push(((g.0, h.1, then(&g.2, &h.2)), origin));
                }
            }
        }
        for (i, (f, e)) in direct.iter().enumerate() {
            let what = format!("recursion, {} calls {}", self.short(*f), self.short(e.to));
            let r = if over {
                Err("too many ways to recurse".into())
            } else if bad.contains(&i) {
                Err("the calls may go on for ever: what is handed on is not surely a proper part of what was given".into())
            } else {
                Ok("every way round the recursion descends into a proper part of the syntax that was given".into())
            };
            self.m.ob("C25", *f, e.at, &what, r);
        }
    }
    fn short(&self, k: LocalDefId) -> String {
        let p = self.m.name(k);
        if self.m.tcx.is_closure_like(k.to_def_id()) {
            "a closure".into()
        } else {
            let (a, b) = tail(&p);
            if a.is_empty() || p.contains('<') && a != "syn_ext" {
                b
            } else {
                format!("{a}::{b}")
            }
        }
    }

    // ------------------------------------------------------------ loops

    fn sccs(&self, b: &Body<'tcx>, set: &HashSet<BasicBlock>) -> Vec<HashSet<BasicBlock>> {
        let next = |x: BasicBlock| succ(b, x).into_iter().filter(|s| set.contains(s)).collect::<Vec<_>>();
        let mut reach: HashMap<BasicBlock, HashSet<BasicBlock>> = HashMap::new();
        for x in set {
            let mut seen = HashSet::new();
            let mut todo = next(*x);
            while let Some(y) = todo.pop() {
                if seen.insert(y) {
                    todo.extend(next(y));
                }
            }
            reach.insert(*x, seen);
        }
        let mut out: Vec<HashSet<BasicBlock>> = vec![];
        let mut order: Vec<_> = set.iter().copied().collect();
        order.sort();
        for x in order {
            if reach[&x].contains(&x) && !out.iter().any(|s| s.contains(&x)) {
                out.push(set.iter().copied().filter(|y| *y == x || reach[&x].contains(y) && reach[y].contains(&x)).collect());
            }
        }
        out
    }

    fn loops(&self) -> usize {
        let mut n = 0;
        for (k, _) in self.m.fns() {
            let Some(c) = self.cx(k) else { continue };
            let all: HashSet<BasicBlock> = c.b.basic_blocks.iter_enumerated().filter(|(_, d)| !d.is_cleanup).map(|x| x.0).collect();
            let mut todo = self.sccs(c.b, &all);
            while let Some(s) = todo.pop() {
                n += 1;
                let head = *s.iter().min().unwrap();
                let at = self.at(&c, &s);
                let (drivers, why) = self.drivers(&c, &s);
                if drivers.is_empty() {
                    let r = self.searches(&c, &s, head, None);
                    self.m.ob("C25", k, at, "loop", r.map_err(undriven));
                    continue;
                }
                self.m.ob("C25", k, at, "loop", why.map_err(undriven));
                let rest: HashSet<BasicBlock> = s.difference(&drivers).copied().collect();
                todo.extend(self.sccs(c.b, &rest));
            }
        }
        n
    }
    fn at(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>) -> Span {
        let mut bbs: Vec<_> = s.iter().copied().collect();
        bbs.sort();
        bbs.iter().map(|x| c.b.basic_blocks[*x].terminator().source_info.span).find(|s| !s.is_dummy()).unwrap_or(c.b.span)
    }
    fn drivers(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>) -> (HashSet<BasicBlock>, Result<String, String>) {
        let tcx = self.m.tcx;
        let mut out = HashSet::new();
        let mut why: Result<String, String> = Ok("driven by a finite sequence".into());
        for bb in s {
            let TerminatorKind::Call { func, args, destination, .. } = &c.b.basic_blocks[*bb].terminator().kind else { continue };
            let Some((f, ga)) = callee(c.b, tcx, func) else { continue };
            let (p, l) = tail(&self.m.path(f));
            let takes = ["next", "next_back", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "nth", "next_if", "shift_remove_index", "split_first", "split_last", "strip_prefix"].contains(&l.as_str());
            let parses = p == "ParseBuffer" && ["parse", "call", "step"].contains(&l.as_str());
            if parses {
                let optional = ga.types().any(|t| matches!(t.kind(), TyKind::Adt(a, _) if ["Option", "Nothing", "PhantomData", "Punctuated"].contains(&tail(&self.m.path(a.did())).1.as_str())));
                if !optional {
                    out.insert(*bb);
                }
                continue;
            }
            if !takes {
                continue;
            }
            let Some(it) = args.first().and_then(|a| a.node.place()).map(|p| base(c.b, &c.d, p)) else { continue };
            let fresh = c.d.defs[it].iter().any(|x| match x {
                Def::Call(b) => s.contains(b) && b != bb,
                Def::Assign(l) => s.contains(&l.block) && !self.of_itself(c, it, *l),
            });
            if fresh {
                continue;
            }
            if !self.ends(c, s, *bb, destination.local) {
                continue;
            }
            let endless = ga.types().next().is_some_and(|t| self.endless(c, t));
            if endless && self.repeats(ga.type_at(0)) {
                why = Err("the candidates repeat".into());
            } else if endless {
                why = self.searches(c, s, *bb, Some(*bb));
            } else if let Err(e) = self.grows(c, s, it, destination.local) {
                why = Err(e);
            }
            out.insert(*bb);
        }
        if out.is_empty() {
            out = self.counters(c, s);
            if !out.is_empty() {
                why = Ok("counts up to a bound".into());
            }
        }
        if out.is_empty() {
            out = self.descent(c, s);
            if !out.is_empty() {
                why = Ok("descends into a proper part".into());
            }
        }
        (out, why)
    }
    /// `it = rest of it`
    fn of_itself(&self, c: &Cx<'tcx>, l: Local, loc: Location) -> bool {
        matches!(rvalue(c.b, loc), Some(Rvalue::Use(Operand::Copy(p) | Operand::Move(p), ..)) if base(c.b, &c.d, *p) == l)
    }
    /// is the loop left once there is nothing more?
    fn ends(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>, call: BasicBlock, res: Local) -> bool {
        let mut direct = false;
        let mut leaves = true;
        for bb in s {
            let TerminatorKind::SwitchInt { discr, targets } = &c.b.basic_blocks[*bb].terminator().kind else { continue };
            let Src::Assign(loc) = src(c.b, &c.d, discr) else { continue };
            let Some(Rvalue::Discriminant(p)) = rvalue(c.b, loc) else { continue };
            let mut none = 0;
            let mut from = src_place(c.b, &c.d, *p, 0);
            if let Src::Call(x) = from {
                if x != call {
                    if let TerminatorKind::Call { func, args, .. } = &c.b.basic_blocks[x].terminator().kind {
                        if callee(c.b, self.m.tcx, func).is_some_and(|(f, _)| tail(&self.m.path(f)).1 == "branch") {
                            if let Some(q) = args.first().and_then(|a| a.node.place()) {
                                from = src_place(c.b, &c.d, q, 0);
                                none = 1;
                            }
                        }
                    }
                }
            }
            if !matches!(from, Src::Call(x) if x == call) {
                continue;
            }
            direct = true;
            let t = targets.target_for_value(none);
            // from there on, can it come back?
            let mut seen = HashSet::new();
            let mut todo = vec![t];
            while let Some(x) = todo.pop() {
                if x == call {
                    leaves = false;
                    break;
                }
                if s.contains(&x) && seen.insert(x) {
                    todo.extend(succ(c.b, x));
                }
            }
        }
        if direct {
            return leaves;
        }
        // some other test of the result
        let mut derived: HashSet<Local> = HashSet::from([res]);
        for _ in 0..20 {
            let n = derived.len();
            for bb in s {
                let data = &c.b.basic_blocks[*bb];
                for st in &data.statements {
                    if let StatementKind::Assign(x) = &st.kind {
                        if operands(&x.1).iter().any(|p| derived.contains(&p.local)) {
                            derived.insert(x.0.local);
                        }
                    }
                }
                if let TerminatorKind::Call { args, destination, .. } = &data.terminator().kind {
                    if args.iter().any(|a| a.node.place().is_some_and(|p| derived.contains(&p.local))) {
                        derived.insert(destination.local);
                    }
                }
            }
            if derived.len() == n {
                break;
            }
        }
        s.iter().any(|bb| match &c.b.basic_blocks[*bb].terminator().kind {
            TerminatorKind::SwitchInt { discr, targets } => discr.place().is_some_and(|p| derived.contains(&p.local)) && targets.all_targets().iter().any(|t| !s.contains(t)),
            TerminatorKind::Call { args, func, .. } => {
                // `unwrap` ends the loop in its own way
                callee(c.b, self.m.tcx, func).is_some_and(|(f, _)| ["unwrap", "expect"].contains(&tail(&self.m.path(f)).1.as_str())) && args.first().and_then(|a| a.node.place()).is_some_and(|p| derived.contains(&p.local))
            }
            _ => false,
        })
    }
    /// does the loop add to what it takes from?
    fn grows(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>, it: Local, taken: Local) -> Result<(), String> {
        for bb in s {
            let TerminatorKind::Call { func, args, .. } = &c.b.basic_blocks[*bb].terminator().kind else { continue };
            let Some((f, _)) = callee(c.b, self.m.tcx, func) else { continue };
            let (_, l) = tail(&self.m.path(f));
            let adds = ["push", "extend", "insert", "append", "push_back", "push_front", "push_value", "resize", "splice", "extend_from_slice", "replace", "swap"].contains(&l.as_str());
            let own = f.is_local();
            if !(adds || own) {
                continue;
            }
            for (i, a) in args.iter().enumerate() {
                let m = matches!(a.node.ty(c.b, self.m.tcx).kind(), TyKind::Ref(_, _, Mutability::Mut));
                if !m || a.node.place().is_none_or(|p| base(c.b, &c.d, p) != it || c.b.local_decls[p.local].ty.peel_refs() != c.b.local_decls[it].ty.peel_refs()) {
                    continue;
                }
                for (j, x) in args.iter().enumerate() {
                    if i == j {
                        continue;
                    }
                    let ok = match self.operand(c, &x.node, *bb, Some(taken), &mut vec![Local::from_usize(0)]) {
                        Any => false,
                        Of(m) => m.get(&Org::Old) == Some(&true),
                    };
                    if !ok {
                        return Err("the loop adds to the sequence it works through, and not only proper parts of what it took from it".into());
                    }
                }
                if own && args.len() == 1 {
                    return Err("the loop may add to the sequence it works through".into());
                }
            }
        }
        Ok(())
    }
    /// blocks that test a counter that goes up in every round
    fn counters(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>) -> HashSet<BasicBlock> {
        let mut out = HashSet::new();
        for bb in s {
            let TerminatorKind::SwitchInt { discr, targets } = &c.b.basic_blocks[*bb].terminator().kind else { continue };
            if targets.all_targets().iter().all(|t| s.contains(t)) {
                continue;
            }
            let Src::Assign(loc) = src(c.b, &c.d, discr) else { continue };
            let Some(Rvalue::BinaryOp(op, os)) = rvalue(c.b, loc) else { continue };
            if !matches!(op, BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Eq | BinOp::Ne) {
                continue;
            }
            for (x, y) in [(&os.0, &os.1), (&os.1, &os.0)] {
                let Some(v) = x.place().map(|p| self.variable(c, p)) else { continue };
                let incs = self.increments(c, s, v);
                if incs.is_empty() || incs.contains(bb) {
                    continue;
                }
                // the bound stays what it is
                if let Some(p) = y.place() {
                    let w = self.variable(c, p);
                    let same = c.d.defs[w].iter().all(|d| match d {
                        Def::Assign(l) => !s.contains(&l.block),
                        Def::Call(x) => {
                            !s.contains(x) || {
                                let TerminatorKind::Call { func, args, .. } = &c.b.basic_blocks[*x].terminator().kind else { return false };
                                let len = callee(c.b, self.m.tcx, func).is_some_and(|(f, _)| ["len", "count"].contains(&tail(&self.m.path(f)).1.as_str()));
                                len && args.first().and_then(|a| a.node.place()).is_some_and(|p| self.grows(c, s, base(c.b, &c.d, p), Local::from_usize(0)).is_ok())
                            }
                        }
                    });
                    if !same {
                        continue;
                    }
                }
                let rest: HashSet<BasicBlock> = s.difference(&incs).copied().collect();
                if !self.sccs(c.b, &rest).iter().any(|r| r.contains(bb)) {
                    out.insert(*bb);
                }
            }
        }
        out
    }
    fn variable(&self, c: &Cx<'tcx>, p: Place<'tcx>) -> Local {
        let mut l = p.local;
        for _ in 0..10 {
            match &c.d.defs[l][..] {
                [Def::Assign(loc)] => match rvalue(c.b, *loc) {
                    Some(Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..)) if q.projection.is_empty() => l = q.local,
                    _ => return l,
                },
                _ => return l,
            }
        }
        l
    }
    /// `v.checked_add(1).unwrap()` and the like
    fn added(&self, c: &Cx<'tcx>, bb: BasicBlock, v: Local, depth: usize) -> bool {
        let TerminatorKind::Call { func, args, .. } = &c.b.basic_blocks[bb].terminator().kind else { return false };
        let Some((f, _)) = callee(c.b, self.m.tcx, func) else { return false };
        match tail(&self.m.path(f)).1.as_str() {
            "unwrap" | "expect" if depth < 3 => matches!(src(c.b, &c.d, &args[0].node), Src::Call(x) if self.added(c, x, v, depth + 1)),
            "checked_add" | "saturating_add" | "strict_add" => {
                args[0].node.place().is_some_and(|p| self.variable(c, p) == v) && matches!(&args[1].node, Operand::Constant(k) if k.const_.try_eval_bits(self.m.tcx, self.m.env(c.b)).is_some_and(|x| x > 0))
            }
            _ => false,
        }
    }
    fn increments(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>, v: Local) -> HashSet<BasicBlock> {
        let mut out = HashSet::new();
        for d in &c.d.defs[v] {
            let Def::Assign(loc) = d else {
                if let Def::Call(b) = d {
                    if s.contains(b) {
                        if !self.added(c, *b, v, 0) {
                            return HashSet::new();
                        }
                        out.insert(*b);
                    }
                }
                continue;
            };
            if !s.contains(&loc.block) {
                continue;
            }
            let up = |r: Option<&Rvalue<'tcx>>| match r {
                Some(Rvalue::BinaryOp(BinOp::Add | BinOp::AddWithOverflow | BinOp::AddUnchecked, os)) => {
                    os.0.place().is_some_and(|p| self.variable(c, p) == v) && matches!(&os.1, Operand::Constant(k) if k.const_.try_eval_bits(self.m.tcx, self.m.env(c.b)).is_some_and(|x| x > 0))
                }
                _ => false,
            };
            let r = rvalue(c.b, *loc);
            let ok = up(r)
                || match r {
                    Some(Rvalue::Use(Operand::Copy(p) | Operand::Move(p), ..)) => c.d.defs[p.local].iter().all(|d| match d {
                        Def::Assign(l) => up(rvalue(c.b, *l)),
                        Def::Call(x) => self.added(c, *x, v, 0),
                    }),
                    _ => false,
                };
            if !ok {
                return HashSet::new();
            }
            out.insert(loc.block);
        }
        out
    }
    /// blocks that replace a variable by a proper part of what it was
    fn descent(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>) -> HashSet<BasicBlock> {
        for (l, decl) in c.b.local_decls.iter_enumerated() {
            if !self.content(decl.ty) {
                continue;
            }
            let here: Vec<BasicBlock> = c.d.defs[l]
                .iter()
                .map(|d| match d {
                    Def::Assign(x) => x.block,
                    Def::Call(x) => *x,
                })
                .filter(|x| s.contains(x))
                .collect();
            let outside = c.d.defs[l].len() > here.len() || l.index() >= 1 && l.index() <= c.b.arg_count;
            if here.is_empty() || !outside {
                continue;
            }
            let proper = c.d.defs[l].iter().all(|d| {
                let (bb, p) = match d {
                    Def::Assign(x) => (x.block, if s.contains(&x.block) { self.rvalue(c, rvalue(c.b, *x), *x, Some(l), &mut vec![Local::from_usize(0)]) } else { Any }),
                    Def::Call(x) => (*x, if s.contains(x) { self.result(c, *x, Some(l), &mut vec![Local::from_usize(0)]) } else { Any }),
                };
                !s.contains(&bb) || matches!(p, Of(m) if m.get(&Org::Old) == Some(&true))
            });
            if proper {
                return here.into_iter().collect();
            }
        }
        HashSet::new()
    }

    // ------------------------------------------------------------ searches

    /// a loop over candidates that is left as soon as one of them is not taken yet
    fn searches(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>, head: BasicBlock, driver: Option<BasicBlock>) -> Result<String, String> {
        if !s.iter().any(|bb| self.membership(c, *bb).is_some()) && !self.tests(c, s) {
            return Err(String::new());
        }
        let back = driver.unwrap_or(head);
        if let Some(bb) = self.comes_back(c, s, back) {
            let _ = bb;
            return Err("the search goes on although the candidate is not taken".into());
        }
        if driver.is_none() && !self.rises(c, s) {
            return Err("the candidates may repeat: nothing changes in every round".into());
        }
        self.supply(c.k)
    }
    /// something goes up, or grows, in every round of a loop
    fn rises(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>) -> bool {
        let every = |bbs: HashSet<BasicBlock>| {
            let rest: HashSet<BasicBlock> = s.difference(&bbs).copied().collect();
            !bbs.is_empty() && self.sccs(c.b, &rest).iter().all(|r| !self.drivers(c, r).0.is_empty())
        };
        let mut grown: HashMap<Local, HashSet<BasicBlock>> = HashMap::new();
        for bb in s {
            let TerminatorKind::Call { func, args, .. } = &c.b.basic_blocks[*bb].terminator().kind else { continue };
            let Some((f, ga)) = callee(c.b, self.m.tcx, func) else { continue };
            let (p, l) = tail(&self.m.path(f));
            let endless = l == "next" && ga.types().next().is_some_and(|t| self.endless(c, t) && !self.repeats(t));
            let longer = p == "String" && ["push", "push_str", "insert", "insert_str"].contains(&l.as_str());
            if let (true, Some(q)) = (longer || endless, args.first().and_then(|a| a.node.place())) {
                grown.entry(base(c.b, &c.d, q)).or_default().insert(*bb);
            }
        }
        // not begun anew in the loop
        let kept = |l: Local| c.d.defs[l].iter().all(|d| !matches!(d, Def::Call(b) if s.contains(b)) && !matches!(d, Def::Assign(x) if s.contains(&x.block)));
        grown.into_iter().any(|(l, bbs)| kept(l) && every(bbs)) || c.b.local_decls.indices().any(|v| c.b.local_decls[v].ty.is_integral() && every(self.increments(c, s, v)))
    }
    fn tests(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>) -> bool {
        s.iter().any(|bb| match &c.b.basic_blocks[*bb].terminator().kind {
            TerminatorKind::Call { func, args, .. } => {
                let own = callee(c.b, self.m.tcx, func).and_then(|(f, _)| f.as_local()).is_some_and(|g| self.fresh(g, 0).is_some());
                own || args.iter().any(|a| matches!(a.node.ty(c.b, self.m.tcx).kind(), TyKind::Closure(g, _) if g.as_local().is_some_and(|g| self.fresh(g, 0).is_some())))
            }
            _ => false,
        })
    }
    /// is there a way back to the start of the search that does not find the candidate taken?
    fn comes_back(&self, c: &Cx<'tcx>, s: &HashSet<BasicBlock>, back: BasicBlock) -> Option<BasicBlock> {
        let mut seen: HashSet<(BasicBlock, Vec<(Local, bool)>)> = HashSet::new();
        let mut todo: Vec<(BasicBlock, BTreeMap<Local, bool>, bool)> = vec![(back, BTreeMap::new(), true)];
        while let Some((bb, mut w, first)) = todo.pop() {
            if !first && bb == back {
                return Some(bb);
            }
            if !s.contains(&bb) || !first && !seen.insert((bb, w.iter().map(|(l, v)| (*l, *v)).collect())) || seen.len() > 5000 {
                continue;
            }
            for t in self.step(c, bb, &mut w, Some(back)) {
                todo.push((t, w.clone(), false));
            }
        }
        None
    }
    /// one block, with everything taken to be free
    fn step(&self, c: &Cx<'tcx>, bb: BasicBlock, w: &mut BTreeMap<Local, bool>, back: Option<BasicBlock>) -> Vec<BasicBlock> {
        let data = &c.b.basic_blocks[bb];
        for st in &data.statements {
            if let StatementKind::Assign(x) = &st.kind {
                let val = |o: &Operand<'tcx>, w: &BTreeMap<Local, bool>| match o {
                    Operand::Constant(k) if k.const_.ty().is_bool() => k.const_.try_eval_bool(self.m.tcx, self.m.env(c.b)),
                    Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => w.get(&p.local).copied(),
                    _ => None,
                };
                if !x.0.projection.is_empty() {
                    continue;
                }
                let v = match &x.1 {
                    Rvalue::Use(o, ..) if o.ty(c.b, self.m.tcx).is_bool() || self.option(o.ty(c.b, self.m.tcx)) => val(o, w),
                    Rvalue::Aggregate(a, _) => match **a {
                        AggregateKind::Adt(a, v, ..) if self.m.path(a).ends_with("option::Option") => Some(v.as_usize() == 1),
                        _ => None,
                    },
                    Rvalue::Discriminant(p) if p.projection.is_empty() && self.option(c.b.local_decls[p.local].ty) => w.get(&p.local).copied(),
                    Rvalue::UnaryOp(UnOp::Not, o) => val(o, w).map(|x| !x),
                    Rvalue::BinaryOp(op, os) => match (op, val(&os.0, w), val(&os.1, w)) {
                        (BinOp::BitAnd, Some(a), Some(b)) => Some(a && b),
                        (BinOp::BitOr, Some(a), Some(b)) => Some(a || b),
                        (BinOp::Eq, Some(a), Some(b)) => Some(a == b),
                        (BinOp::Ne, Some(a), Some(b)) => Some(a != b),
                        _ => None,
                    },
                    _ => None,
                };
                match v {
                    Some(v) => drop(w.insert(x.0.local, v)),
                    None => drop(w.remove(&x.0.local)),
                }
            }
        }
        match &data.terminator().kind {
            TerminatorKind::SwitchInt { discr, targets } => {
                if let Some(v) = discr.place().and_then(|p| w.get(&p.local)) {
                    return vec![targets.target_for_value(*v as u128)];
                }
                // an inner sequence of candidates is not empty
                if let Src::Assign(loc) = src(c.b, &c.d, discr) {
                    if let Some(Rvalue::Discriminant(p)) = rvalue(c.b, loc) {
                        if let Src::Call(x) = src_place(c.b, &c.d, *p, 0) {
                            if let TerminatorKind::Call { func, .. } = &c.b.basic_blocks[x].terminator().kind {
                                if let Some((f, ga)) = callee(c.b, self.m.tcx, func) {
                                    let l = tail(&self.m.path(f)).1;
                                    let found = ["find", "position", "find_map"].contains(&l.as_str());
                                    let free = found && self.closures(c, x).iter().any(|g| self.fresh(*g, 0) == Some(true));
                                    let endless = ga.types().next().is_some_and(|t| self.m.infinite(c.b, t));
                                    if l == "next" && (Some(x) != back || endless) || free {
                                        let t = targets.target_for_value(0);
                                        return targets.all_targets().iter().copied().filter(|y| *y != t).collect();
                                    }
                                }
                            }
                        }
                    }
                }
                targets.all_targets().to_vec()
            }
            TerminatorKind::Call { destination, .. } => {
                match self.membership(c, bb).or_else(|| self.kept(c, bb, w)) {
                    Some(v) => drop(w.insert(destination.local, v)),
                    None => drop(w.remove(&destination.local)),
                }
                succ(c.b, bb).into_iter().filter(|x| !c.b.basic_blocks[*x].is_cleanup).collect()
            }
            _ => succ(c.b, bb).into_iter().filter(|x| !c.b.basic_blocks[*x].is_cleanup).collect(),
        }
    }
    fn option(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), TyKind::Adt(a, _) if self.m.path(a.did()).ends_with("option::Option"))
    }
    /// what is known of a call that turns a truth value into an option, or the other way round
    fn kept(&self, c: &Cx<'tcx>, bb: BasicBlock, w: &BTreeMap<Local, bool>) -> Option<bool> {
        let TerminatorKind::Call { func, args, .. } = &c.b.basic_blocks[bb].terminator().kind else { return None };
        let (f, _) = callee(c.b, self.m.tcx, func)?;
        let (p, l) = tail(&self.m.path(f));
        let mut q = args.first()?.node.place()?;
        let v = loop {
            if !q.projection.is_empty() {
                return None;
            }
            if let Some(v) = w.get(&q.local) {
                break *v;
            }
            let [Def::Assign(loc)] = &c.d.defs[q.local][..] else { return None };
            q = match rvalue(c.b, *loc) {
                Some(Rvalue::Ref(_, _, q)) => *q,
                _ => return None,
            };
        };
        match (p.as_str(), l.as_str()) {
            ("bool", "then" | "then_some") | ("Option", "is_some" | "map" | "as_ref" | "as_mut" | "cloned" | "copied" | "take" | "inspect") | ("Not", "not") if l != "not" => Some(v),
            ("Option", "is_none") | ("Not", "not") => Some(!v),
            ("Option", "filter" | "is_some_and") if v => self.closures(c, bb).first().and_then(|g| self.fresh(*g, 1)),
            ("Option", "filter" | "is_some_and" | "and_then" | "and") if !v => Some(false),
            ("Option", "or" | "or_else") if v => Some(true),
            _ => None,
        }
    }
    fn closures(&self, c: &Cx<'tcx>, bb: BasicBlock) -> Vec<LocalDefId> {
        let TerminatorKind::Call { args, .. } = &c.b.basic_blocks[bb].terminator().kind else { return vec![] };
        args.iter()
            .filter_map(|a| match a.node.ty(c.b, self.m.tcx).kind() {
                TyKind::Closure(g, _) | TyKind::FnDef(g, _) => g.as_local(),
                _ => None,
            })
            .filter(|g| self.m.bodies.contains_key(g))
            .collect()
    }
    /// the answer of a membership test for something that is not there
    fn membership(&self, c: &Cx<'tcx>, bb: BasicBlock) -> Option<bool> {
        let TerminatorKind::Call { func, destination, .. } = &c.b.basic_blocks[bb].terminator().kind else { return None };
        let (f, _) = callee(c.b, self.m.tcx, func)?;
        if let Some(g) = f.as_local() {
            return self.fresh(g, 1);
        }
        if !destination.ty(c.b, self.m.tcx).ty.is_bool() {
            return None;
        }
        let (p, l) = tail(&self.m.path(f));
        if MEMBER.contains(&l.as_str()) && !["str", "Range", "RangeInclusive"].contains(&p.as_str()) {
            return Some(false);
        }
        if l == "insert" && p.ends_with("Set") {
            return Some(true);
        }
        if l == "eq" && p == "PartialEq" {
            return Some(false);
        }
        if l == "ne" && p == "PartialEq" {
            return Some(true);
        }
        if p == "Iterator" && ["any", "all"].contains(&l.as_str()) {
            return self.closures(c, bb).first().and_then(|g| self.fresh(*g, 1)).filter(|v| *v == (l == "all"));
        }
        None
    }
    /// what a test answers for a candidate that is not taken
    fn fresh(&self, g: LocalDefId, depth: usize) -> Option<bool> {
        let c = self.cx(g).filter(|_| depth < 5)?;
        let t = c.b.local_decls[RETURN_PLACE].ty;
        if !t.is_bool() && !self.option(t) {
            return None;
        }
        let mut seen: HashSet<(BasicBlock, Vec<(Local, bool)>)> = HashSet::new();
        let mut todo: Vec<(BasicBlock, BTreeMap<Local, bool>)> = vec![(START_BLOCK, BTreeMap::new())];
        let mut out = None;
        while let Some((bb, mut w)) = todo.pop() {
            if !seen.insert((bb, w.iter().map(|(l, v)| (*l, *v)).collect())) {
                continue;
            }
            if seen.len() > 3000 {
                return None;
            }
            let next = self.step(&c, bb, &mut w, None);
            if matches!(c.b.basic_blocks[bb].terminator().kind, TerminatorKind::Return) {
                let v = *w.get(&RETURN_PLACE)?;
                if out.is_some_and(|x| x != v) {
                    return None;
                }
                out = Some(v);
            }
            todo.extend(next.into_iter().map(|t| (t, w.clone())));
        }
        out
    }
    /// the candidates of an endless search in a function differ from each other without end
    fn supply(&self, k: LocalDefId) -> Result<String, String> {
        let k = self.m.tcx.typeck_root_def_id(k.to_def_id()).expect_local();
        self.m.unbounded(k)?;
        let sub = self.m.subtree(k);
        let mut shown = false;
        for g in &sub {
            let Some(c) = self.cx(*g) else { continue };
            // past every particular value of a counter
            let mut cut = HashSet::new();
            for (bb, data) in c.b.basic_blocks.iter_enumerated() {
                if let TerminatorKind::SwitchInt { discr, targets } = &data.terminator().kind {
                    let t = discr.ty(c.b, self.m.tcx);
                    let disc = matches!(src(c.b, &c.d, discr), Src::Assign(l) if matches!(rvalue(c.b, l), Some(Rvalue::Discriminant(_))));
                    if t.is_integral() && !disc {
                        cut.extend(targets.iter().map(|(_, t)| (bb, t)));
                        cut.remove(&(bb, targets.otherwise()));
                    }
                }
            }
            let live = crate::mac::reach(c.b, &cut);
            for bb in &live {
                let data = &c.b.basic_blocks[*bb];
                for st in &data.statements {
                    if let StatementKind::Assign(x) = &st.kind {
                        if let Rvalue::BinaryOp(BinOp::Rem | BinOp::BitAnd | BinOp::Shr | BinOp::ShrUnchecked | BinOp::Div, os) = &x.1 {
                            if os.0.ty(c.b, self.m.tcx).is_integral() {
                                return Err("the candidates repeat: the counter is cut down".into());
                            }
                        }
                        if let Rvalue::Cast(CastKind::IntToInt, o, t) = &x.1 {
                            let size = |t: Ty<'tcx>| match t.kind() {
                                TyKind::Uint(u) => u.bit_width().unwrap_or(64),
                                TyKind::Int(u) => u.bit_width().unwrap_or(64),
                                _ => 0,
                            };
                            if size(*t) < size(o.ty(c.b, self.m.tcx)) && size(*t) < 32 {
                                return Err("the candidates repeat: the counter is cut down".into());
                            }
                        }
                    }
                }
                if let TerminatorKind::Call { func, args, .. } = &data.terminator().kind {
                    let Some((f, ga)) = callee(c.b, self.m.tcx, func) else { continue };
                    let (p, l) = tail(&self.m.path(f));
                    let int = |t: Ty<'tcx>| t.peel_refs().is_integral();
                    if ["min", "clamp", "rem_euclid", "wrapping_rem", "rotate_left"].contains(&l.as_str()) && args.iter().any(|a| int(a.node.ty(c.b, self.m.tcx))) {
                        return Err("the candidates repeat: the counter is bounded".into());
                    }
                    shown |= (l == "new_display" || l == "new_debug" || l == "to_string" || p == "ToString" || l == "new_lower_hex") && ga.types().any(int);
                    shown |= l == "repeat" || l == "resize" || l == "repeat_n";
                    shown |= (l == "fmt" || l == "write_fmt" || l == "push_str") && ga.types().any(int);
                    // a name that grows
                    shown |= (l == "push" || l == "push_str" || l == "insert_str") && p == "String" && self.m.in_loop(c.b, *bb);
                }
            }
        }
        if shown {
            Ok("an endless supply of different candidates, one of which is not taken".into())
        } else {
            Err("after some rounds the candidates do not depend on the counter any more".into())
        }
    }

    /// everything that works through an endless iterator
    fn consumers(&self) -> usize {
        let mut n = 0;
        const LAZY: &[&str] = &[
            "map", "filter", "filter_map", "flat_map", "chain", "zip", "take", "skip", "enumerate", "peekable", "scan", "take_while", "skip_while", "inspect", "step_by", "by_ref", "into_iter", "rev", "cloned",
            "copied", "fuse", "map_while", "flatten", "size_hint", "iter", "clone", "deref", "deref_mut", "as_ref", "as_mut", "from_fn", "new", "start", "end", "borrow", "borrow_mut", "fmt", "drop", "peek", "cycle",
        ];
        for (k, _) in self.m.fns() {
            let Some(c) = self.cx(k) else { continue };
            for (bb, data) in c.b.basic_blocks.iter_enumerated() {
                if data.is_cleanup {
                    continue;
                }
                let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
                let Some((f, _)) = callee(c.b, self.m.tcx, func) else { continue };
                let (p, l) = tail(&self.m.path(f));
                let at = data.terminator().source_info.span;
                let endless = args.iter().any(|a| {
                    let t = a.node.ty(c.b, self.m.tcx);
                    !matches!(t.kind(), TyKind::Closure(..)) && self.endless(&c, t)
                });
                if !endless || LAZY.contains(&l.as_str()) {
                    continue;
                }
                n += 1;
                let what = format!("{p}::{l}");
                let search = ["find", "position", "any", "find_map", "all", "try_for_each", "try_fold", "next", "nth"].contains(&l.as_str());
                let r = if search && self.repeats(args[0].node.ty(c.b, self.m.tcx)) && l != "next" {
                    Err("the candidates repeat".into())
                } else if f.is_local() {
                    self.drains(f.expect_local(), 0)
                } else if !search {
                    Err("works through an endless sequence to its end".into())
                } else if l == "next" || l == "nth" {
                    let t = args[0].node.ty(c.b, self.m.tcx);
                    let picky = t.walk().filter_map(|a| a.as_type()).find_map(|t| match t.kind() {
                        TyKind::Adt(a, ga) if ["Filter", "FilterMap", "SkipWhile"].contains(&tail(&self.m.path(a.did())).1.as_str()) => ga.types().nth(1).map(|g| (tail(&self.m.path(a.did())).1, g)),
                        _ => None,
                    });
                    match picky {
                        None => Ok("one element".into()),
                        Some((kind, g)) => match g.kind() {
                            TyKind::Closure(g, _) | TyKind::FnDef(g, _) if g.is_local() => {
                                let want = kind != "SkipWhile";
                                if self.fresh(g.expect_local(), 0) == Some(want) {
                                    self.supply(k)
                                } else {
                                    Err("the search goes on although the candidate is not taken".into())
                                }
                            }
                            _ => Err("an endless search for something unknown".into()),
                        },
                    }
                } else {
                    let gs = self.closures(&c, bb);
                    let want = l != "all";
                    let hit = gs.iter().any(|g| self.fresh(*g, 0) == Some(want));
                    if hit {
                        self.supply(k)
                    } else {
                        Err("the search goes on although the candidate is not taken".into())
                    }
                };
                self.m.ob("C25", k, at, &what, r);
            }
        }
        n
    }
    /// does the type of an iterator (or of what holds one) say that it has no end?
    fn endless(&self, c: &Cx<'tcx>, t: Ty<'tcx>) -> bool {
        let tcx = self.m.tcx;
        match t.kind() {
            TyKind::Adt(a, ga) => {
                let args: Vec<Ty<'tcx>> = ga.types().filter(|t| !matches!(t.kind(), TyKind::Closure(..) | TyKind::FnDef(..))).collect();
                match tail(&self.m.path(a.did())).1.as_str() {
                    "RangeFrom" | "Repeat" | "RepeatWith" | "Cycle" | "FromFn" => self.std(a.did()),
                    "RangeInclusive" => self.m.infinite(c.b, t),
                    // each one a proper part of the one before
                    "Successors" => !ga.types().any(|t| match t.kind() {
                        TyKind::Closure(g, _) | TyKind::FnDef(g, _) => g.as_local().filter(|g| self.m.bodies.contains_key(g)).and_then(|g| self.ret(g)).is_some_and(|p| match p {
                            Any => false,
                            Of(m) => m.iter().any(|(o, s)| *s && matches!(o, Org::Param(1 | 2))),
                        }),
                        _ => false,
                    }),
                    "Take" | "TakeWhile" | "MapWhile" | "Scan" => false,
                    "Zip" => args.iter().all(|t| self.endless(c, *t)),
                    _ => args.iter().any(|t| self.endless(c, *t)),
                }
            }
            TyKind::Ref(_, t, _) => self.endless(c, *t),
            TyKind::Tuple(ts) => ts.iter().any(|t| self.endless(c, t)),
            TyKind::Alias(_, a) => match a.kind {
                ty::AliasTyKind::Opaque { def_id } if def_id.is_local() => self.endless(c, tcx.type_of(def_id).instantiate(tcx, a.args).skip_norm_wip()),
                _ => false,
            },
            _ => false,
        }
    }
    /// does it go through the same elements again and again?
    fn repeats(&self, t: Ty<'tcx>) -> bool {
        let has = |n: &[&str]| t.walk().filter_map(|a| a.as_type()).any(|t| matches!(t.kind(), TyKind::Adt(a, _) if n.contains(&tail(&self.m.path(a.did())).1.as_str())));
        has(&["Cycle"]) && !has(&["RangeFrom"])
    }
    /// a function that is handed an endless iterator must not work through all of it
    fn drains(&self, g: LocalDefId, depth: usize) -> Result<String, String> {
        let Some(c) = self.cx(g).filter(|_| depth < 4) else { return Err("handed to an unknown function".into()) };
        for (bb, data) in c.b.basic_blocks.iter_enumerated() {
            let TerminatorKind::Call { func, args, .. } = &data.terminator().kind else { continue };
            let Some((f, ga)) = callee(c.b, self.m.tcx, func) else { continue };
            let (p, l) = tail(&self.m.path(f));
            if p != "Iterator" && p != "FromIterator" && p != "Extend" || !ga.types().next().is_some_and(|t| t.walk().any(|a| a.as_type().is_some_and(|t| matches!(t.kind(), TyKind::Param(_) | TyKind::Alias(..))))) {
                continue;
            }
            let _ = args;
            match l.as_str() {
                "collect" | "count" | "last" | "fold" | "for_each" | "sum" | "max" | "min" | "from_iter" | "extend" | "partition" | "unzip" | "reduce" | "product" | "min_by_key" | "max_by_key" => {
                    return Err(format!("`{}` works through an endless sequence to its end", self.short(g)));
                }
                "find" | "any" | "position" | "find_map" => {
                    if !self.closures(&c, bb).iter().any(|g| self.fresh(*g, 0) == Some(true)) {
                        return Err("the search goes on although the candidate is not taken".into());
                    }
                }
                _ => {}
            }
        }
        Ok("not worked through to the end".into())
    }
}

fn undriven(e: String) -> String {
    if e.is_empty() {
        "nothing finite drives this loop".into()
    } else {
        e
    }
}
fn add(arcs: &mut Arcs, p: Prov, to: Org) {
    if let Of(m) = p {
        for (o, s) in m {
            *arcs.entry((o, to)).or_default() |= s;
        }
    }
}
fn then(a: &[((Org, Org), bool)], b: &[((Org, Org), bool)]) -> Vec<((Org, Org), bool)> {
    let mut m: Arcs = Arcs::new();
    for ((x, y), s) in a {
        for ((y2, z), t) in b {
            if y == y2 {
                *m.entry((*x, *z)).or_default() |= *s || *t;
            }
        }
    }
    m.into_iter().collect()
}
fn operands<'tcx>(r: &Rvalue<'tcx>) -> Vec<Place<'tcx>> {
    match r {
        Rvalue::Use(o, ..) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) => o.place().into_iter().collect(),
        Rvalue::Ref(_, _, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) => vec![*p],
        Rvalue::BinaryOp(_, os) => os.0.place().into_iter().chain(os.1.place()).collect(),
        Rvalue::Aggregate(_, os) => os.iter().filter_map(|o| o.place()).collect(),
        _ => vec![],
    }
}

pub fn run<'tcx>(m: &Mac<'tcx, '_>) {
    let t = Term { m, memo: RefCell::default(), rets: RefCell::default() };
    let (edges, groups) = t.recursion();
    let loops = t.loops();
    let searches = t.consumers();
    Rec::new("term").n("edges", edges as i64).n("groups", groups as i64).n("loops", loops as i64).n("searches", searches as i64).emit();
}
