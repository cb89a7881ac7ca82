//! Primitive operations: opaque collections, raw memory, intrinsics.
use crate::eng::*;
use crate::lin::*;
use crate::val::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyKind};

/// the first type argument of `t`
fn first_arg<'tcx>(t: Ty<'tcx>) -> Ty<'tcx> {
    match t.kind() {
        TyKind::Adt(_, a) => a.types().next().unwrap_or(t),
        _ => t,
    }
}

impl<'tcx> Eng<'tcx> {
    fn ret(&self, st: State<'tcx>, v: Val<'tcx>) -> R<Option<Outs<'tcx>>> {
        Ok(Some(vec![(Out::Ret(v), st)]))
    }
    fn unit(&self) -> Val<'tcx> {
        Val::unit(self.tcx)
    }
    /// follow references to the location of a non-reference value
    pub fn deref_loc(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>) -> R<Option<Loc>> {
        let mut v = v.clone();
        let mut at = None;
        for _ in 0..16 {
            match v {
                Val::Ref(l) => {
                    if let Some(P::Slice(..)) = l.proj.last() {
                        return Ok(Some(l));
                    }
                    v = self.read(st, &l)?;
                    at = Some(l);
                }
                Val::Adt(_, _, ref fs) if at.is_none() && fs.iter().any(|x| matches!(x, Val::Ref(_))) => {
                    v = fs.iter().find(|x| matches!(x, Val::Ref(_))).unwrap().clone();
                }
                _ => break,
            }
        }
        Ok(at)
    }

    /// remove the first (last) element of a sequence; forks on emptiness
    pub fn pop(&mut self, mut st: State<'tcx>, loc: &Loc, back: bool) -> R<Vec<(State<'tcx>, Option<Val<'tcx>>)>> {
        let l = st.fix_loc(loc);
        let v = self.read(&mut st, &l)?;
        let Val::Seq(mut q) = v else { und!(self, "iteration over {v:?}") };
        if q.norm && !q.ch.is_empty() {
            und!(self, "iteration over a re-collected ordered or hashed collection");
        }
        let n = q.ch.len();
        if n == 0 {
            return Ok(vec![(st, None)]);
        }
        let i = if back { n - 1 } else { 0 };
        match q.ch[i].clone() {
            Chunk::One(x) => {
                q.ch.remove(i);
                self.write(&mut st, &l, Val::Seq(q))?;
                Ok(vec![(st, Some(x))])
            }
            Chunk::Rep(m, t) => {
                let mut out = vec![];
                if t.is_empty() {
                    q.ch.remove(i);
                    self.write(&mut st, &l, Val::Seq(q))?;
                    return self.pop(st, &l, back);
                }
                if let Some(mut s) = st.assume_eq(&m) {
                    let l = s.fix_loc(&l);
                    let Val::Seq(mut q) = self.read(&mut s, &l)? else { unreachable!() };
                    q.ch.remove(i);
                    self.write(&mut s, &l, Val::Seq(q))?;
                    out.extend(self.pop(s, &l, back)?);
                }
                if let Some(mut s) = st.assume(&m.addk(-1)) {
                    let l = s.fix_loc(&l);
                    let Val::Seq(mut q) = self.read(&mut s, &l)? else { unreachable!() };
                    let Chunk::Rep(m, t) = q.ch[i].clone() else { und!(self, "iteration state") };
                    let mut new: Vec<Chunk<Val<'tcx>>> = vec![];
                    if back {
                        let last = m.addk(-1);
                        if last.konst() != Some(0) {
                            new.push(Chunk::Rep(last.clone(), t.clone()));
                        }
                        new.extend(t.iter().map(|x| Chunk::One(x.sub_(IOTA, &last))));
                    } else {
                        new.extend(t.iter().map(|x| Chunk::One(x.sub_(IOTA, &Lin::k(0)))));
                        if m.konst() != Some(1) {
                            new.push(Chunk::Rep(m.addk(-1), t.sub_(IOTA, &Lin::sym(IOTA).addk(1))));
                        }
                    }
                    q.ch.splice(i..i + 1, new);
                    self.write(&mut s, &l, Val::Seq(q))?;
                    out.extend(self.pop(s, &l, back)?);
                }
                Ok(out)
            }
        }
    }

    pub fn push(&mut self, st: &mut State<'tcx>, loc: &Loc, v: Val<'tcx>, front: bool) -> R<()> {
        let reorders;
        {
            let l = st.fix_loc(loc);
            let Val::Seq(q) = self.read(st, &l)? else { und!(self, "insertion into a non-sequence") };
            reorders = self.reorders(q.ty);
            if reorders && !q.norm && !q.ch.is_empty() {
                und!(self, "insertion into a given ordered or hashed collection");
            }
        }
        let l = st.fix_loc(loc);
        let Val::Seq(q) = self.loc_mut(st, &l)? else { unreachable!() };
        if reorders {
            q.norm = true;
        }
        if front {
            q.ch.insert(0, Chunk::One(v))
        } else {
            q.ch.push(Chunk::One(v))
        }
        Ok(())
    }

    /// resolve and call a method of a trait
    pub fn trait_call(&mut self, st: State<'tcx>, tr: &str, method: &str, slf: Ty<'tcx>, extra: &[ty::GenericArg<'tcx>], vs: Vec<Val<'tcx>>) -> R<Outs<'tcx>> {
        let tcx = self.tcx;
        let trd = tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr)).or_else(|| match tr {
            "Iterator" => tcx.lang_items().iterator_trait(),
            _ => None,
        });
        let Some(trd) = trd else { und!(self, "trait {tr} not found") };
        let m = tcx
            .associated_items(trd)
            .in_definition_order()
            .find(|i| i.name().as_str() == method && i.is_fn())
            .map(|i| i.def_id);
        let Some(m) = m else { und!(self, "method {tr}::{method} not found") };
        let mut ga: Vec<ty::GenericArg<'tcx>> = vec![slf.into()];
        ga.extend_from_slice(extra);
        let args = tcx.mk_args(&ga);
        let out = self.mono(args, tcx.fn_sig(m).skip_binder().output().skip_binder());
        self.call_fn(st, m, args, vs, out)
    }

    /// drain an iterator of type `ity` held in local 0 of the top frame, calling `each`
    /// on every item until it answers with an early result
    fn drain_iter(
        &mut self,
        st: State<'tcx>,
        ity: Ty<'tcx>,
        each: &dyn Fn(&mut Self, State<'tcx>, Val<'tcx>) -> R<Vec<(Option<Out<'tcx>>, State<'tcx>)>>,
        fin: &dyn Fn(&mut Self, State<'tcx>) -> R<(Val<'tcx>, State<'tcx>)>,
    ) -> R<Outs<'tcx>> {
        let fi = st.frames.len() - 1;
        let it = Loc { frame: fi as u32, local: 0, proj: vec![] };
        let ds = self.do_loop(st, &mut |e: &mut Self, s| {
            let mut ex = vec![];
            let mut back = vec![];
            let nexts = e.trait_call(s, "Iterator", "next", ity, &[], vec![Val::Ref(it.clone())])?;
            for (o, s) in nexts {
                match o {
                    Out::Unwind => ex.push(Done::Unwind(s)),
                    Out::Panic(m, p) => ex.push(Done::Panic(m, p, s)),
                    Out::Ret(v) => {
                        for (s, v) in e.split_enum(s, v)? {
                            let Val::Adt(_, k, mut fs) = v else { und!(e, "iterator result") };
                            if k == 0 {
                                let (v, s) = fin(e, s)?;
                                ex.push(Done::Ret(v, s));
                            } else {
                                let x = fs.remove(0);
                                for (o, s) in each(e, s, x)? {
                                    match o {
                                        None => back.push(s),
                                        Some(Out::Ret(v)) => ex.push(Done::Ret(v, s)),
                                        Some(Out::Unwind) => ex.push(Done::Unwind(s)),
                                        Some(Out::Panic(m, p)) => ex.push(Done::Panic(m, p, s)),
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Ok((ex, back))
        })?;
        let mut out = vec![];
        for d in ds {
            match d {
                Done::Ret(v, mut s) => {
                    self.drop_frame(&mut s, fi)?;
                    out.push((Out::Ret(v), s))
                }
                Done::Unwind(mut s) => {
                    self.drop_frame(&mut s, fi)?;
                    out.push((Out::Unwind, s))
                }
                Done::Panic(m, p, mut s) => {
                    s.frames.truncate(fi);
                    out.push((Out::Panic(m, p), s))
                }
                Done::Back(..) => unreachable!(),
            }
        }
        Ok(out)
    }
    /// drop whatever is left in a pseudo frame and remove it
    fn drop_frame(&mut self, s: &mut State<'tcx>, fi: usize) -> R<()> {
        let vs = std::mem::take(&mut s.frames[fi]);
        s.frames.truncate(fi);
        for v in vs {
            let ty = match &v {
                Val::Adt(t, ..) | Val::Sym(_, t) | Val::Boxed(t, _) => *t,
                Val::Seq(q) => q.ty,
                _ => continue,
            };
            self.log_drop(s, v, ty, false)?;
        }
        Ok(())
    }
    /// case split on a symbolic enum value
    pub fn split_enum(&mut self, st: State<'tcx>, v: Val<'tcx>) -> R<Vec<(State<'tcx>, Val<'tcx>)>> {
        let mut v = v;
        let facts = st.facts.clone();
        self.expand(&mut v, &facts);
        match v {
            Val::Sym(t, ty) if self.is_enum(ty) => {
                let TyKind::Adt(d, _) = ty.kind() else { unreachable!() };
                let mut out = vec![];
                for (vi, _) in d.variants().iter_enumerated() {
                    let mut s = st.clone();
                    s.facts.push((t.clone(), vi.as_u32()));
                    let mut x = Val::Sym(t.clone(), ty);
                    let facts = s.facts.clone();
                    self.expand(&mut x, &facts);
                    out.push((s, x));
                }
                Ok(out)
            }
            v => Ok(vec![(st, v)]),
        }
    }
    fn iter_ty_of(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        // `<T as IntoIterator>::IntoIter`
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(rustc_span::Symbol::intern("IntoIterator")).unwrap();
        let it = tcx
            .associated_items(tr)
            .in_definition_order()
            .find(|i| i.name().as_str() == "IntoIter")
            .unwrap()
            .def_id;
        self.norm_ty(Ty::new_projection(tcx, ty::IsRigid::No, it, [t]))
    }
    fn item_ty_of(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let tcx = self.tcx;
        let tr = tcx.lang_items().iterator_trait().unwrap();
        let it =
            tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == "Item").unwrap().def_id;
        self.norm_ty(Ty::new_projection(tcx, ty::IsRigid::No, it, [t]))
    }

    /// collect `iter` (a value of type `t: IntoIterator`) into the opaque collection `acc`;
    /// `short`: items are `Result`/`Option` values and collection stops at the first failure
    fn collect(&mut self, st: State<'tcx>, iter: Val<'tcx>, t: Ty<'tcx>, acc: Val<'tcx>, accl: Option<Loc>, short: Option<Ty<'tcx>>) -> R<Outs<'tcx>> {
        let ity = self.iter_ty_of(t);
        let mut res = vec![];
        for (o, mut st) in self.trait_call(st, "IntoIterator", "into_iter", t, &[], vec![iter])? {
            let Out::Ret(it) = o else {
                res.push((o, st));
                continue;
            };
            let fi = st.frames.len();
            st.frames.push(vec![it, acc.clone()]);
            let al = accl.clone().unwrap_or(Loc { frame: fi as u32, local: 1, proj: vec![] });
            let al2 = al.clone();
            let by_ref = accl.is_some();
            let unit = self.unit();
            let okv = short.map(|t| (t, self.variant_named(t, "Ok").max(self.variant_named(t, "Some"))));
            let r = self.drain_iter(
                st,
                ity,
                &|e, s, x| {
                    if short.is_some() {
                        let mut out = vec![];
                        for (mut s, v) in e.split_enum(s, x)? {
                            let Val::Adt(vt, k, mut fs) = v else { und!(e, "collected item {v:?}") };
                            let good = e.variant_named(vt, "Ok").max(e.variant_named(vt, "Some"));
                            if k == good {
                                let y = fs.remove(0);
                                e.push(&mut s, &al, y, false)?;
                                out.push((None, s));
                            } else {
                                let (dt, g) = okv.unwrap();
                                out.push((Some(Out::Ret(Val::Adt(dt, 1 - g, fs))), s));
                            }
                        }
                        Ok(out)
                    } else {
                        let mut s = s;
                        e.push(&mut s, &al, x, false)?;
                        Ok(vec![(None, s)])
                    }
                },
                &|e, mut s| {
                    if by_ref {
                        return Ok((unit.clone(), s));
                    }
                    let v = e.take(&mut s, &al2)?;
                    match okv {
                        Some((dt, g)) => Ok((Val::Adt(dt, g, vec![v]), s)),
                        None => Ok((v, s)),
                    }
                },
            )?;
            res.extend(r);
        }
        Ok(res)
    }

    fn bounds(&mut self, st: &mut State<'tcx>, idx: &Val<'tcx>, len: &Lin) -> R<Option<(Lin, Option<Lin>)>> {
        // (start, Some(end)) for ranges, (index, None) for an element
        Ok(match idx {
            Val::Int(i) => Some((i.clone(), None)),
            Val::Adt(t, _, fs) => {
                let g = |v: &Val<'tcx>| if let Val::Int(l) = v { Some(l.clone()) } else { None };
                match self.ty_name(*t).as_str() {
                    "core::ops::range::RangeTo" => g(&fs[0]).map(|e| (Lin::k(0), Some(e))),
                    "core::ops::range::RangeFrom" => g(&fs[0]).map(|s| (s, Some(len.clone()))),
                    "core::ops::range::RangeFull" => Some((Lin::k(0), Some(len.clone()))),
                    "core::ops::range::Range" => match (g(&fs[0]), g(&fs[1])) {
                        (Some(a), Some(b)) => Some((a, Some(b))),
                        _ => None,
                    },
                    "core::ops::range::RangeToInclusive" => g(&fs[0]).map(|e| (Lin::k(0), Some(e.addk(1)))),
                    _ => None,
                }
            }
            _ => {
                let _ = st;
                None
            }
        })
    }
    fn sub_loc(l: &Loc, b: &(Lin, Option<Lin>)) -> Loc {
        match &b.1 {
            None => Self::idx_loc(l, b.0.clone()),
            Some(e) => Self::slice_loc(l, b.0.clone(), e.clone()),
        }
    }
    /// states in which the bounds hold, and states in which they do not
    fn in_bounds(&mut self, st: State<'tcx>, b: &(Lin, Option<Lin>), len: &Lin) -> (Vec<State<'tcx>>, Vec<State<'tcx>>) {
        let conds: Vec<Lin> = match &b.1 {
            None => vec![len.sub(&b.0).addk(-1)],
            Some(e) => vec![e.sub(&b.0), len.sub(e)],
        };
        let mut good = vec![st];
        let mut bad = vec![];
        for c in conds {
            let mut n = vec![];
            for s in good {
                let c = s.resolve(&c);
                n.extend(s.assume(&c));
                bad.extend(s.assume(&c.neg().addk(-1)));
            }
            good = n;
        }
        (good, bad)
    }

    pub fn prim(&mut self, st: State<'tcx>, name: &str, a: GenericArgsRef<'tcx>, vs: &[Val<'tcx>], dty: Ty<'tcx>) -> R<Option<Outs<'tcx>>> {
        let mut st = st;
        let base = name.rsplit("::").next().unwrap_or("");
        let slf_ty = a.types().next();
        let slf_opaque = slf_ty.map_or(false, |t| self.opaque_item(t).is_some());
        let inv = |v: &Val<'tcx>| match v {
            Val::Seq(_) => true,
            _ => false,
        };
        // ---------------------------------------------------------- iterators
        match name {
            "core::iter::traits::iterator::Iterator::next"
            | "core::iter::traits::double_ended::DoubleEndedIterator::next_back"
                if slf_opaque =>
            {
                let Val::Ref(l) = &vs[0] else { und!(self, "next on {:?}", vs[0]) };
                let mut out = vec![];
                for (s, v) in self.pop(st, l, base == "next_back")? {
                    let v = match v {
                        Some(x) => self.some(dty, x),
                        None => self.none(dty),
                    };
                    out.push((Out::Ret(v), s));
                }
                return Ok(Some(out));
            }
            "core::iter::traits::iterator::Iterator::size_hint" if slf_opaque => {
                let Val::Ref(l) = &vs[0] else { und!(self, "size_hint") };
                let l = l.clone();
                let n = match self.read(&mut st, &l)? {
                    Val::Seq(q) if !q.norm => Val::Int(Self::seq_len(&q)),
                    _ => Val::Top,
                };
                let ot = self.option_of(self.tcx.types.usize);
                let v = Val::Adt(dty, 0, vec![n.clone(), self.some(ot, n)]);
                return self.ret(st, v);
            }
            "core::iter::traits::exact_size::ExactSizeIterator::len" if slf_opaque => {
                let Val::Ref(l) = &vs[0] else { und!(self, "len") };
                let n = self.loc_len(&mut st, l)?;
                return self.ret(st, Val::Int(n));
            }
            "core::iter::traits::collect::IntoIterator::into_iter" => {
                if slf_opaque {
                    let Val::Seq(mut q) = vs[0].clone() else { und!(self, "into_iter on {:?}", vs[0]) };
                    q.ty = dty;
                    return self.ret(st, Val::Seq(q));
                }
                if let Some(TyKind::Ref(_, t, _)) = slf_ty.map(|t| t.kind()) {
                    if self.opaque_item(*t).is_some() && self.opaque_item(dty).is_some() && !self.reorders(*t) {
                        return self.ref_iter(st, &vs[0], dty);
                    }
                }
            }
            "core::iter::traits::collect::FromIterator::from_iter" => {
                let t = a.type_at(2);
                if slf_opaque {
                    let acc = self.empty_seq(slf_ty.unwrap());
                    return Ok(Some(self.collect(st, vs[0].clone(), t, acc, None, None)?));
                }
                if let Some(TyKind::Adt(d, ra)) = slf_ty.map(|t| t.kind()) {
                    let p = self.path(d.did());
                    if p == "core::result::Result" || p == "core::option::Option" {
                        let c = ra.type_at(0);
                        if self.opaque_item(c).is_some() {
                            let acc = self.empty_seq(c);
                            return Ok(Some(self.collect(st, vs[0].clone(), t, acc, None, slf_ty)?));
                        }
                    }
                }
            }
            "core::iter::traits::collect::Extend::extend" if slf_opaque => {
                let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "extend") };
                let t = a.type_at(2);
                return Ok(Some(self.collect(st, vs[1].clone(), t, Val::Top, Some(l), None)?));
            }
            "core::iter::traits::collect::Extend::extend_one" if slf_opaque => {
                let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "extend") };
                self.push(&mut st, &l, vs[1].clone(), false)?;
                let u = self.unit();
                return self.ret(st, u);
            }
            "core::default::Default::default" if slf_opaque && !matches!(slf_ty.unwrap().kind(), TyKind::Array(..)) => {
                let v = self.empty_seq(slf_ty.unwrap());
                return self.ret(st, v);
            }
            "core::convert::From::from" | "core::convert::Into::into" => {
                // conversions between sequences that keep the order
                let (to, from) =
                    if base == "from" { (a.type_at(0), a.type_at(1)) } else { (a.type_at(1), a.type_at(0)) };
                if self.opaque_item(to).is_some() && inv(&vs[0]) && to != from {
                    let Val::Seq(mut q) = vs[0].clone() else { unreachable!() };
                    if q.norm {
                        und!(self, "conversion of a re-collected ordered or hashed collection");
                    }
                    q.ty = to;
                    q.norm = self.reorders(to);
                    return self.ret(st, Val::Seq(q));
                }
                if to.is_box() && Some(from) == to.boxed_ty() {
                    return self.ret(st, Val::Boxed(to, Box::new(vs[0].clone())));
                }
            }
            _ => {}
        }
        // -------------------------------------------------------- collections
        if let Some((tyname, m)) = name.rsplit_once("::") {
            let coll = matches!(
                tyname,
                "alloc::vec::Vec"
                    | "alloc::collections::vec_deque::VecDeque"
                    | "alloc::collections::linked_list::LinkedList"
                    | "alloc::collections::binary_heap::BinaryHeap"
                    | "alloc::collections::btree::set::BTreeSet"
                    | "alloc::collections::btree::map::BTreeMap"
                    | "std::collections::hash::set::HashSet"
                    | "std::collections::hash::map::HashMap"
            );
            if coll {
                match m {
                    "new" | "with_capacity" | "with_hasher" | "with_capacity_and_hasher" => {
                        let v = self.empty_seq(dty);
                        return self.ret(st, v);
                    }
                    "push" | "push_back" | "insert" | "push_front" | "push_within_capacity" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let pair = tyname.ends_with("Map");
                        if m == "insert" && (tyname.ends_with("Vec") || tyname.ends_with("VecDeque")) {
                            // insertion at the end only
                            let n = self.loc_len(&mut st, &l)?;
                            if let Val::Int(i) = &vs[1] {
                                if n.sub(i).konst() == Some(0) {
                                    self.push(&mut st, &l, vs[2].clone(), false)?;
                                    let u = self.unit();
                                    return self.ret(st, u);
                                }
                            }
                            und!(self, "insertion at a computed position");
                        }
                        let x = if pair {
                            let Val::Seq(q) = self.read(&mut st, &l)? else { und!(self, "insert") };
                            let it = self.opaque_item(q.ty).unwrap();
                            Val::Adt(it, 0, vec![vs[1].clone(), vs[2].clone()])
                        } else {
                            vs[1].clone()
                        };
                        self.push(&mut st, &l, x, m == "push_front")?;
                        let r = if dty.is_unit() { self.unit() } else { Val::Top };
                        return self.ret(st, r);
                    }
                    "pop" | "pop_back" | "pop_front" | "pop_first" | "pop_last" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        if tyname.ends_with("BinaryHeap") {
                            und!(self, "priority order removal");
                        }
                        let back = m == "pop_back" || m == "pop_last" || m == "pop";
                        let mut out = vec![];
                        for (s, v) in self.pop(st, &l, back)? {
                            let v = match v {
                                Some(x) => self.some(dty, x),
                                None => self.none(dty),
                            };
                            out.push((Out::Ret(v), s));
                        }
                        return Ok(Some(out));
                    }
                    "remove" | "swap_remove" if tyname.ends_with("Vec") => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        if let (Val::Int(i), "remove") = (&vs[1], m) {
                            if i.konst() == Some(0) {
                                let mut out = vec![];
                                for (s, v) in self.pop(st, &l, false)? {
                                    match v {
                                        Some(x) => out.push((Out::Ret(x), s)),
                                        None => out.push((Out::Panic("removal index out of bounds".into(), self.span), s)),
                                    }
                                }
                                return Ok(Some(out));
                            }
                        }
                        und!(self, "removal at a computed position");
                    }
                    "len" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let v = match self.read(&mut st, &l)? {
                            Val::Seq(q) if !q.norm || q.ch.is_empty() => Val::Int(Self::seq_len(&q)),
                            _ => Val::Top,
                        };
                        return self.ret(st, v);
                    }
                    "is_empty" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let Val::Seq(q) = self.read(&mut st, &l)? else { und!(self, "{m}") };
                        let n = Self::seq_len(&q);
                        let r = self.compare(st, rustc_middle::mir::BinOp::Eq, &n, &Lin::k(0));
                        return Ok(Some(r.into_iter().map(|(s, b)| (Out::Ret(Val::bool(b)), s)).collect()));
                    }
                    "capacity" | "hasher" => return self.ret(st, Val::Top),
                    "reserve" | "reserve_exact" | "shrink_to_fit" | "shrink_to" => {
                        let u = self.unit();
                        return self.ret(st, u);
                    }
                    "append" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let Some(r) = self.deref_loc(&mut st, &vs[1])? else { und!(self, "{m}") };
                        let Val::Seq(mut q) = self.read(&mut st, &r)? else { und!(self, "{m}") };
                        let Val::Seq(mut p) = self.read(&mut st, &l)? else { und!(self, "{m}") };
                        if self.reorders(p.ty) {
                            und!(self, "append of ordered collections");
                        }
                        p.ch.append(&mut q.ch);
                        self.write(&mut st, &l, Val::Seq(p))?;
                        self.write(&mut st, &r, Val::Seq(q))?;
                        let u = self.unit();
                        return self.ret(st, u);
                    }
                    "clear" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let Val::Seq(mut q) = self.read(&mut st, &l)? else { und!(self, "{m}") };
                        let ch = std::mem::take(&mut q.ch);
                        let it = self.opaque_item(q.ty).unwrap();
                        self.write(&mut st, &l, Val::Seq(q))?;
                        self.log_chunks(&mut st, &ch, it, false)?;
                        let u = self.unit();
                        return self.ret(st, u);
                    }
                    "into_boxed_slice" => {
                        let Val::Seq(mut q) = vs[0].clone() else { und!(self, "{m}") };
                        q.ty = dty.boxed_ty().unwrap_or(dty);
                        return self.ret(st, Val::Boxed(dty, Box::new(Val::Seq(q))));
                    }
                    "into_vec" => {
                        let Val::Seq(mut q) = vs[0].clone() else { und!(self, "{m}") };
                        if q.norm {
                            und!(self, "conversion of a re-collected heap");
                        }
                        q.ty = dty;
                        return self.ret(st, Val::Seq(q));
                    }
                    "drain" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let full = vs.len() == 1
                            || matches!(&vs[1], Val::Adt(t, ..) if self.ty_name(*t) == "core::ops::range::RangeFull");
                        if full && self.opaque_item(dty).is_some() {
                            let Val::Seq(mut q) = self.read(&mut st, &l)? else { und!(self, "{m}") };
                            let e = Val::Seq(Box::new(SeqV { ty: q.ty, ch: vec![], norm: q.norm }));
                            self.write(&mut st, &l, e)?;
                            q.ty = dty;
                            return self.ret(st, Val::Seq(q));
                        }
                        und!(self, "partial drain");
                    }
                    "as_slice" | "as_mut_slice" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let n = self.loc_len(&mut st, &l)?;
                        return self.ret(st, Val::Ref(Self::slice_loc(&l, Lin::k(0), n)));
                    }
                    "as_ptr" | "as_mut_ptr" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        return self.ret(st, Val::Ref(Self::idx_loc(&l, Lin::k(0))));
                    }
                    "iter" | "iter_mut" if self.opaque_item(dty).is_some() => {
                        return self.ref_iter(st, &vs[0], dty);
                    }
                    _ => {
                        if self.tracked(&vs[0]) {
                            und!(self, "collection method {name} is not modelled");
                        }
                    }
                }
            }
            if tyname == "slice" || tyname == "array" {
                match m {
                    "len" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let n = self.loc_len(&mut st, &l)?;
                        return self.ret(st, Val::Int(n));
                    }
                    "iter" | "iter_mut" => return self.ref_iter(st, &vs[0], dty),
                    "as_slice" | "as_mut_slice" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let n = self.loc_len(&mut st, &l)?;
                        return self.ret(st, Val::Ref(Self::slice_loc(&l, Lin::k(0), n)));
                    }
                    "as_ptr" | "as_mut_ptr" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        return self.ret(st, Val::Ref(Self::idx_loc(&l, Lin::k(0))));
                    }
                    "get_unchecked" | "get_unchecked_mut" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let n = self.loc_len(&mut st, &l)?;
                        let Some(b) = self.bounds(&mut st, &vs[1], &n)? else { und!(self, "{m} with an unknown index") };
                        let (good, bad) = self.in_bounds(st, &b, &n);
                        if !bad.is_empty() {
                            ub!(self, "unchecked access {b:?} not provably within the length {n:?}");
                        }
                        return Ok(Some(
                            good.into_iter()
                                .map(|s| {
                                    let r = Self::sub_loc(&s.fix_loc(&l), &s.fix2(&b));
                                    (Out::Ret(Val::Ref(r)), s)
                                })
                                .collect(),
                        ));
                    }
                    "get" | "get_mut" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let n = self.loc_len(&mut st, &l)?;
                        let Some(b) = self.bounds(&mut st, &vs[1], &n)? else { und!(self, "{m} with an unknown index") };
                        let (good, bad) = self.in_bounds(st, &b, &n);
                        let mut out = vec![];
                        for s in good {
                            let r = Self::sub_loc(&s.fix_loc(&l), &s.fix2(&b));
                            out.push((Out::Ret(self.some(dty, Val::Ref(r))), s));
                        }
                        for s in bad {
                            out.push((Out::Ret(self.none(dty)), s));
                        }
                        return Ok(Some(out));
                    }
                    "map" if tyname == "array" => return Ok(Some(self.array_map(st, vs, dty)?)),
                    "split_at" | "split_at_mut" | "split_at_unchecked" | "split_at_mut_unchecked" | "split_at_checked"
                    | "split_at_mut_checked" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let n = self.loc_len(&mut st, &l)?;
                        let Val::Int(mid) = &vs[1] else { und!(self, "{m} at an unknown index") };
                        let b = (Lin::k(0), Some(mid.clone()));
                        let checked = m.ends_with("_checked");
                        let (good, bad) = self.in_bounds(st, &b, &n);
                        if !bad.is_empty() && m.ends_with("_unchecked") {
                            ub!(self, "{m} at {mid:?} not provably within the length {n:?}");
                        }
                        let pair = if checked { first_arg(dty) } else { dty };
                        let mut out = vec![];
                        for s in good {
                            let (l, mid, n) = (s.fix_loc(&l), s.resolve(mid), s.resolve(&n));
                            let lo = Val::Ref(Self::slice_loc(&l, Lin::k(0), mid.clone()));
                            let hi = Val::Ref(Self::slice_loc(&l, mid, n));
                            let v = Val::Adt(pair, 0, vec![lo, hi]);
                            let v = if checked { self.some(dty, v) } else { v };
                            out.push((Out::Ret(v), s));
                        }
                        for s in bad {
                            let o = if checked {
                                Out::Ret(self.none(dty))
                            } else {
                                Out::Panic("split index out of bounds".into(), self.span)
                            };
                            out.push((o, s));
                        }
                        return Ok(Some(out));
                    }
                    "first" | "first_mut" | "last" | "last_mut" | "split_first" | "split_first_mut" | "split_last"
                    | "split_last_mut" => {
                        let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "{m}") };
                        let n = self.loc_len(&mut st, &l)?;
                        let split = m.starts_with("split");
                        let front = m.contains("first");
                        let inner = first_arg(dty);
                        let mut out = vec![];
                        for (s, empty) in self.compare(st, rustc_middle::mir::BinOp::Eq, &n, &Lin::k(0)) {
                            if empty {
                                out.push((Out::Ret(self.none(dty)), s));
                                continue;
                            }
                            let (l, n) = (s.fix_loc(&l), s.resolve(&n));
                            let e = Val::Ref(Self::idx_loc(&l, if front { Lin::k(0) } else { n.addk(-1) }));
                            let v = if split {
                                let (x, y) = if front { (Lin::k(1), n) } else { (Lin::k(0), n.addk(-1)) };
                                Val::Adt(inner, 0, vec![e, Val::Ref(Self::slice_loc(&l, x, y))])
                            } else {
                                e
                            };
                            out.push((Out::Ret(self.some(dty, v)), s));
                        }
                        return Ok(Some(out));
                    }
                    "swap" | "reverse" | "sort" | "rotate_left" | "rotate_right" | "sort_by" | "sort_unstable" => {
                        if self.tracked(&vs[0]) {
                            und!(self, "slice method {m} is not modelled");
                        }
                    }
                    "into_vec" => {
                        if let Val::Boxed(_, b) = &vs[0] {
                            if let Val::Seq(q) = &**b {
                                let mut q = q.clone();
                                q.ty = dty;
                                return self.ret(st, Val::Seq(q));
                            }
                        }
                        und!(self, "into_vec");
                    }
                    _ => {}
                }
            }
            if tyname == "core::mem::maybe_uninit::MaybeUninit" {
                match m {
                    "uninit" | "zeroed" => {
                        let v = self.mk_uninit(dty);
                        return self.ret(st, v);
                    }
                    "new" => return self.ret(st, vs[0].clone()),
                    "assume_init" => {
                        let v = match &vs[0] {
                            Val::Uninit => self.mk_uninit(dty),
                            v => v.clone(),
                        };
                        let v = self.empty_arr(&st, v, dty);
                        if self.uninit_in(&v, dty) {
                            ub!(self, "assume_init of uninitialised memory: {dty:?}");
                        }
                        let v = self.retype(v, dty);
                        return self.ret(st, v);
                    }
                    "write" => {
                        let Val::Ref(l) = &vs[0] else { und!(self, "{m}") };
                        self.write(&mut st, l, vs[1].clone())?;
                        return self.ret(st, vs[0].clone());
                    }
                    "as_ptr" | "as_mut_ptr" => return self.ret(st, vs[0].clone()),
                    "assume_init_ref" | "assume_init_mut" | "assume_init_read" => {
                        let Val::Ref(l) = &vs[0] else { und!(self, "{m}") };
                        let v = self.read(&mut st, l)?;
                        let t = if m == "assume_init_read" {
                            dty
                        } else {
                            dty.builtin_deref(true).unwrap_or(dty)
                        };
                        if self.uninit_in(&v, t) {
                            ub!(self, "{m} of uninitialised memory: {t:?}");
                        }
                        let r = if m == "assume_init_read" { self.retype(v, t) } else { vs[0].clone() };
                        return self.ret(st, r);
                    }
                    "assume_init_drop" => {
                        let Val::Ref(l) = &vs[0] else { und!(self, "{m}") };
                        let t = a.type_at(0);
                        return Ok(Some(self.drop_loc(st, l, t, true)?));
                    }
                    "transpose" | "uninit_array" | "array_assume_init" => {
                        let v = match vs.first() {
                            Some(v) => v.clone(),
                            None => self.mk_uninit(dty),
                        };
                        if m == "array_assume_init" && self.uninit_in(&v, dty) {
                            ub!(self, "{m} of uninitialised memory");
                        }
                        let v = self.retype(v, dty);
                        return self.ret(st, v);
                    }
                    _ => und!(self, "MaybeUninit::{m} is not modelled"),
                }
            }
            if tyname == "core::mem::manually_drop::ManuallyDrop" {
                match m {
                    "new" | "into_inner" => return self.ret(st, vs[0].clone()),
                    "take" => {
                        // the slot keeps its bits; reading it again would duplicate
                        let Val::Ref(l) = &vs[0] else { und!(self, "{m}") };
                        let v = self.take(&mut st, l)?;
                        return self.ret(st, v);
                    }
                    "drop" => {
                        let Val::Ref(l) = &vs[0] else { und!(self, "{m}") };
                        return Ok(Some(self.drop_loc(st, l, a.type_at(0), true)?));
                    }
                    _ => {}
                }
            }
            if tyname.starts_with("alloc::boxed::Box") {
                match m {
                    "new" | "pin" if m == "new" => {
                        return self.ret(st, Val::Boxed(dty, Box::new(vs[0].clone())));
                    }
                    "into_inner" => {
                        let v = match vs[0].clone() {
                            Val::Boxed(_, b) => *b,
                            Val::Sym(t, ty) => {
                                let mut v = Val::Sym(t, ty);
                                self.expand(&mut v, &[]);
                                match v {
                                    Val::Boxed(_, b) => *b,
                                    v => und!(self, "into_inner of {v:?}"),
                                }
                            }
                            v => und!(self, "into_inner of {v:?}"),
                        };
                        return self.ret(st, v);
                    }
                    _ => {}
                }
            }
            if tyname == "ptr" || tyname == "core::ptr::mut_ptr" || tyname == "core::ptr::const_ptr" || tyname == "core::ptr::non_null::NonNull" {
                let adt = matches!(dty.kind(), TyKind::Adt(..));
                match m {
                    "cast" | "cast_mut" | "cast_const" | "as_ptr" | "as_mut_ptr" | "as_ref" | "as_mut" | "cast_init" | "cast_uninit"
                        if !adt =>
                    {
                        if let Some(l) = self.ptr(&vs[0]) {
                            let from = slf_ty.unwrap();
                            let to = dty.builtin_deref(true).unwrap_or(dty);
                            let l = self.recast_loc(l, from, to)?;
                            return self.ret(st, Val::Ref(l));
                        }
                        return self.ret(st, Val::Top);
                    }
                    "add" | "sub" | "offset" | "wrapping_add" => {
                        if let (Some(mut l), Val::Int(n)) = (self.ptr(&vs[0]), &vs[1]) {
                            if let Some(P::Idx(i)) = l.proj.last().cloned() {
                                l.proj.pop();
                                let n = if m == "sub" { n.neg() } else { n.clone() };
                                l.proj.push(P::Idx(i.add(&n)));
                                let v = if adt { Val::Adt(dty, 0, vec![Val::Ref(l)]) } else { Val::Ref(l) };
                                return self.ret(st, v);
                            }
                        }
                        und!(self, "pointer arithmetic");
                    }
                    "write" => {
                        let Some(l) = self.ptr(&vs[0]) else { und!(self, "{m}") };
                        self.write(&mut st, &l, vs[1].clone())?;
                        let u = self.unit();
                        return self.ret(st, u);
                    }
                    "read" => {
                        let Some(l) = self.ptr(&vs[0]) else { und!(self, "{m}") };
                        return self.ptr_read(st, &l, dty);
                    }
                    "drop_in_place" => {
                        let Some(l) = self.ptr(&vs[0]) else { und!(self, "{m}") };
                        return Ok(Some(self.drop_loc(st, &l, slf_ty.unwrap(), true)?));
                    }
                    "is_null" => return self.ret(st, Val::bool(false)),
                    _ => {}
                }
            }
        }
        match name {
            "core::ops::index::Index::index" | "core::ops::index::IndexMut::index_mut" if slf_opaque => {
                let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "index") };
                if self.reorders(slf_ty.unwrap()) {
                    und!(self, "lookup in an ordered or hashed collection");
                }
                let n = self.loc_len(&mut st, &l)?;
                let Some(b) = self.bounds(&mut st, &vs[1], &n)? else { und!(self, "index with unknown value") };
                let (good, bad) = self.in_bounds(st, &b, &n);
                let mut out = vec![];
                for s in good {
                    let r = Self::sub_loc(&s.fix_loc(&l), &s.fix2(&b));
                    out.push((Out::Ret(Val::Ref(r)), s));
                }
                for s in bad {
                    out.push((Out::Panic("index out of bounds".into(), self.span), s));
                }
                return Ok(Some(out));
            }
            "core::ops::deref::Deref::deref" | "core::ops::deref::DerefMut::deref_mut" => {
                let t = slf_ty.unwrap();
                if self.transparent(t) {
                    return self.ret(st, vs[0].clone());
                }
                if self.opaque_item(t).is_some() {
                    let Some(l) = self.deref_loc(&mut st, &vs[0])? else { und!(self, "deref") };
                    let n = self.loc_len(&mut st, &l)?;
                    return self.ret(st, Val::Ref(Self::slice_loc(&l, Lin::k(0), n)));
                }
                if t.is_box() {
                    if let Val::Ref(l) = &vs[0] {
                        let mut l = l.clone();
                        l.proj.push(P::Deref);
                        return self.ret(st, Val::Ref(l));
                    }
                }
            }
            "core::mem::forget" => {
                let u = self.unit();
                return self.ret(st, u);
            }
            "core::mem::zeroed" | "core::mem::uninitialized" => {
                if let TyKind::Array(_, n) = self.peel(dty).kind() {
                    let n = self.const_lin(*n);
                    let n = st.resolve(&n);
                    if n.konst() == Some(0) {
                        return self.ret(st, Val::Seq(Box::new(SeqV { ty: dty, ch: vec![], norm: false })));
                    }
                    if self.uninit_in(&self.mk_uninit_ro(dty), dty) {
                        ub!(self, "{base}() of an array whose length is not provably zero: {dty:?}");
                    }
                }
                if self.transparent(dty) {
                    let v = self.mk_uninit(dty);
                    return self.ret(st, v);
                }
                if dty.is_integral() || dty.is_bool() {
                    return self.ret(st, Val::Int(Lin::k(0)));
                }
                ub!(self, "{base}() of a type that may have invalid bit patterns: {dty:?}");
            }
            "core::mem::replace" => {
                let Val::Ref(l) = &vs[0] else { und!(self, "{name}") };
                let v = self.read(&mut st, l)?;
                self.write(&mut st, l, vs[1].clone())?;
                return self.ret(st, v);
            }
            "core::mem::take" => {
                let Val::Ref(l) = &vs[0] else { und!(self, "{name}") };
                let l = l.clone();
                let t = a.type_at(0);
                let v = self.read(&mut st, &l)?;
                let mut out = vec![];
                for (o, mut s) in self.trait_call(st, "Default", "default", t, &[], vec![])? {
                    match o {
                        Out::Ret(d) => {
                            self.write(&mut s, &l, d)?;
                            out.push((Out::Ret(v.clone()), s));
                        }
                        o => out.push((o, s)),
                    }
                }
                return Ok(Some(out));
            }
            "core::mem::swap" => {
                let (Val::Ref(x), Val::Ref(y)) = (&vs[0], &vs[1]) else { und!(self, "{name}") };
                let p = self.read(&mut st, x)?;
                let q = self.read(&mut st, y)?;
                self.write(&mut st, x, q)?;
                self.write(&mut st, y, p)?;
                let u = self.unit();
                return self.ret(st, u);
            }
            "core::mem::transmute_copy" => {
                let Val::Ref(l) = &vs[0] else { und!(self, "{name}") };
                return self.ptr_read(st, &l.clone(), dty);
            }
            "core::mem::needs_drop" | "core::mem::size_of" | "core::mem::align_of" | "core::mem::size_of_val" => {
                return self.ret(st, Val::Top);
            }
            "core::ptr::read" => {
                let Some(l) = self.ptr(&vs[0]) else { und!(self, "{name}") };
                return self.ptr_read(st, &l, dty);
            }
            "core::ptr::write" => {
                let Some(l) = self.ptr(&vs[0]) else { und!(self, "{name}") };
                self.write(&mut st, &l, vs[1].clone())?;
                let u = self.unit();
                return self.ret(st, u);
            }
            "core::ptr::drop_in_place" | "core::ptr::drop_glue" => {
                let Some(l) = self.ptr(&vs[0]) else { und!(self, "{name}") };
                return Ok(Some(self.drop_loc(st, &l, a.type_at(0), true)?));
            }
            "core::ptr::from_mut" | "core::ptr::from_ref" | "core::ptr::addr_of" => return self.ret(st, vs[0].clone()),
            "core::slice::raw::from_raw_parts" | "core::slice::raw::from_raw_parts_mut"
            | "core::ptr::slice_from_raw_parts" | "core::ptr::slice_from_raw_parts_mut" => {
                if let (Some(mut l), Val::Int(n)) = (self.ptr(&vs[0]), &vs[1]) {
                    if let Some(P::Idx(i)) = l.proj.last().cloned() {
                        l.proj.pop();
                        let end = i.add(n);
                        let len = self.loc_len(&mut st, &l)?;
                        if !st.cons.implied(&len.sub(&end)) {
                            ub!(self, "slice of length {n:?} not provably within the array of length {len:?}");
                        }
                        return self.ret(st, Val::Ref(Self::slice_loc(&l, i, end)));
                    }
                }
                und!(self, "{name}");
            }
            "core::iter::adapters::zip::ZipImpl::new" => {
                let z = Val::Int(Lin::k(0));
                let v = Val::Adt(dty, 0, vec![vs[0].clone(), vs[1].clone(), z.clone(), z]);
                return self.ret(st, v);
            }
            "core::iter::adapters::zip::ZipImpl::next" => {
                let Val::Ref(z) = &vs[0] else { und!(self, "next on {:?}", vs[0]) };
                let (ta, tb) = (a.type_at(1), a.type_at(2));
                let z = z.clone();
                return Ok(Some(self.zip_next(st, &z, ta, tb, dty)?));
            }
            "core::iter::adapters::zip::ZipImpl::size_hint" => {
                let ot = self.option_of(self.tcx.types.usize);
                let v = Val::Adt(dty, 0, vec![Val::Top, self.some(ot, Val::Top)]);
                return self.ret(st, v);
            }
            "core::iter::adapters::zip::ZipImpl::fold" => {
                return Ok(Some(self.zip_fold(st, vs, a.type_at(0), dty)?));
            }
            // keys of the default hasher: nothing a caller can observe or influence
            "std::hash::random::RandomState::new"
            | "<std::hash::random::RandomState as core::default::Default>::default" => return self.ret(st, Val::Top),
            "core::array::from_fn" => return Ok(Some(self.array_from_fn(st, vs, dty)?)),
            "core::hint::unreachable_unchecked" => ub!(self, "unreachable_unchecked is reachable"),
            "core::hint::black_box" | "core::convert::identity" => return self.ret(st, vs[0].clone()),
            _ => {}
        }
        let _ = Instance::mono;
        Ok(None)
    }

    fn mk_uninit_ro(&self, _t: Ty<'tcx>) -> Val<'tcx> {
        Val::Uninit
    }

    pub fn ptr(&self, v: &Val<'tcx>) -> Option<Loc> {
        match v {
            Val::Ref(l) => Some(l.clone()),
            Val::Adt(_, _, fs) => fs.iter().find_map(|x| if let Val::Ref(l) = x { Some(l.clone()) } else { None }),
            _ => None,
        }
    }
    /// an array that is known to be empty has no uninitialised part
    fn empty_arr(&mut self, st: &State<'tcx>, v: Val<'tcx>, ty: Ty<'tcx>) -> Val<'tcx> {
        if let TyKind::Array(_, n) = self.peel(ty).kind() {
            let n = self.const_lin(*n);
            if st.resolve(&n).konst() == Some(0) {
                return Val::Seq(Box::new(SeqV { ty, ch: vec![], norm: false }));
            }
        }
        v
    }
    fn ptr_read(&mut self, mut st: State<'tcx>, l: &Loc, dty: Ty<'tcx>) -> R<Option<Outs<'tcx>>> {
        let v = self.read(&mut st, l)?;
        let v = self.empty_arr(&st, v, dty);
        if self.uninit_in(&v, dty) {
            ub!(self, "raw read of uninitialised memory: {dty:?}");
        }
        let v = self.retype(v, dty);
        self.ret(st, v)
    }
    fn ref_iter(&mut self, mut st: State<'tcx>, v: &Val<'tcx>, dty: Ty<'tcx>) -> R<Option<Outs<'tcx>>> {
        let Some(l) = self.deref_loc(&mut st, v)? else { und!(self, "iteration by reference") };
        let n = self.loc_len(&mut st, &l)?;
        let e = Val::Ref(Self::idx_loc(&l, Lin::sym(IOTA)));
        self.ret(st, Val::Seq(Box::new(SeqV { ty: dty, ch: vec![Chunk::Rep(n, vec![e])], norm: false })))
    }

    /// one step of a pair of iterators advanced in turn
    fn zip_next(&mut self, st: State<'tcx>, z: &Loc, ta: Ty<'tcx>, tb: Ty<'tcx>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let sub = |i: u32| {
            let mut l = z.clone();
            l.proj.push(P::Field(i));
            l
        };
        let pair = first_arg(dty);
        let mut out = vec![];
        for (o, s) in self.trait_call(st, "Iterator", "next", ta, &[], vec![Val::Ref(sub(0))])? {
            let Out::Ret(v) = o else {
                out.push((o, s));
                continue;
            };
            for (s, v) in self.split_enum(s, v)? {
                let Val::Adt(_, k, mut x) = v else { und!(self, "item of a zipped iterator") };
                if k == 0 {
                    out.push((Out::Ret(self.none(dty)), s));
                    continue;
                }
                let x = x.remove(0);
                // the first item waits in a frame of its own while the second iterator runs
                let mut s = s;
                let fi = s.frames.len();
                s.frames.push(vec![x]);
                let xl = Loc { frame: fi as u32, local: 0, proj: vec![] };
                for (o, mut s) in self.trait_call(s, "Iterator", "next", tb, &[], vec![Val::Ref(sub(1))])? {
                    let Out::Ret(v) = o else {
                        self.drop_frame(&mut s, fi)?;
                        out.push((o, s));
                        continue;
                    };
                    for (mut s, v) in self.split_enum(s, v)? {
                        let Val::Adt(_, k, mut y) = v else { und!(self, "item of a zipped iterator") };
                        if k == 0 {
                            self.drop_frame(&mut s, fi)?;
                            out.push((Out::Ret(self.none(dty)), s));
                            continue;
                        }
                        let x = self.take(&mut s, &xl)?;
                        s.frames.truncate(fi);
                        let v = Val::Adt(pair, 0, vec![x, y.remove(0)]);
                        out.push((Out::Ret(self.some(dty, v)), s));
                    }
                }
            }
        }
        Ok(out)
    }
    fn zip_fold(&mut self, st: State<'tcx>, vs: &[Val<'tcx>], zt: Ty<'tcx>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let mut st = st;
        let fi = st.frames.len() as u32;
        st.frames.push(vec![vs[0].clone(), vs[1].clone(), vs[2].clone()]);
        let l = |i: u32| Loc { frame: fi, local: i, proj: vec![] };
        self.drain_iter(
            st,
            zt,
            &|e, mut s, x| {
                let acc = e.take(&mut s, &l(1))?;
                let mut out = vec![];
                for (o, mut s) in e.call_value(s, Val::Ref(l(2)), vec![acc, x], dty)? {
                    match o {
                        Out::Ret(v) => {
                            e.write(&mut s, &l(1), v)?;
                            out.push((None, s));
                        }
                        o => out.push((Some(o), s)),
                    }
                }
                Ok(out)
            },
            &|e, mut s| Ok((e.take(&mut s, &l(1))?, s)),
        )
    }

    fn array_map(&mut self, st: State<'tcx>, vs: &[Val<'tcx>], dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let mut st = st;
        let fi = st.frames.len();
        let TyKind::Array(bt, _) = dty.kind() else { und!(self, "array map to {dty:?}") };
        let bt = *bt;
        let acc = Val::Seq(Box::new(SeqV { ty: dty, ch: vec![], norm: false }));
        st.frames.push(vec![vs[0].clone(), acc, vs[1].clone()]);
        let l = |i: u32| Loc { frame: fi as u32, local: i, proj: vec![] };
        let ds = self.do_loop(st, &mut |e: &mut Self, s| {
            let (mut ex, mut back) = (vec![], vec![]);
            for (mut s, x) in e.pop(s, &l(0), false)? {
                match x {
                    None => {
                        let v = e.take(&mut s, &l(1))?;
                        ex.push(Done::Ret(v, s));
                    }
                    Some(x) => {
                        for (o, mut s) in e.call_value(s, Val::Ref(l(2)), vec![x], bt)? {
                            match o {
                                Out::Ret(v) => {
                                    e.push(&mut s, &l(1), v, false)?;
                                    back.push(s);
                                }
                                Out::Unwind => ex.push(Done::Unwind(s)),
                                Out::Panic(m, p) => ex.push(Done::Panic(m, p, s)),
                            }
                        }
                    }
                }
            }
            Ok((ex, back))
        })?;
        self.finish_native(ds, fi)
    }
    fn array_from_fn(&mut self, st: State<'tcx>, vs: &[Val<'tcx>], dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let mut st = st;
        let fi = st.frames.len();
        let TyKind::Array(bt, n) = dty.kind() else { und!(self, "array from_fn to {dty:?}") };
        let (bt, n) = (*bt, *n);
        let n = self.const_lin(n);
        let acc = Val::Seq(Box::new(SeqV { ty: dty, ch: vec![], norm: false }));
        st.frames.push(vec![Val::Int(Lin::k(0)), acc, vs[0].clone()]);
        let l = |i: u32| Loc { frame: fi as u32, local: i, proj: vec![] };
        let ds = self.do_loop(st, &mut |e: &mut Self, mut s| {
            let (mut ex, mut back) = (vec![], vec![]);
            let Val::Int(i) = e.read(&mut s, &l(0))? else { und!(e, "from_fn index") };
            let nn = s.resolve(&n);
            for (mut s, lt) in e.compare(s, rustc_middle::mir::BinOp::Lt, &i, &nn) {
                if !lt {
                    let v = e.take(&mut s, &l(1))?;
                    ex.push(Done::Ret(v, s));
                    continue;
                }
                for (o, mut s) in e.call_value(s, Val::Ref(l(2)), vec![Val::Int(i.clone())], bt)? {
                    match o {
                        Out::Ret(v) => {
                            e.push(&mut s, &l(1), v, false)?;
                            let Val::Int(i) = e.read(&mut s, &l(0))? else { und!(e, "from_fn index") };
                            e.write(&mut s, &l(0), Val::Int(i.addk(1)))?;
                            back.push(s);
                        }
                        Out::Unwind => ex.push(Done::Unwind(s)),
                        Out::Panic(m, p) => ex.push(Done::Panic(m, p, s)),
                    }
                }
            }
            Ok((ex, back))
        })?;
        self.finish_native(ds, fi)
    }
    fn finish_native(&mut self, ds: Vec<Done<'tcx>>, fi: usize) -> R<Outs<'tcx>> {
        let mut out = vec![];
        for d in ds {
            match d {
                Done::Ret(v, mut s) => {
                    self.drop_frame(&mut s, fi)?;
                    out.push((Out::Ret(v), s))
                }
                Done::Unwind(mut s) => {
                    self.drop_frame(&mut s, fi)?;
                    out.push((Out::Unwind, s))
                }
                Done::Panic(m, p, mut s) => {
                    s.frames.truncate(fi);
                    out.push((Out::Panic(m, p), s))
                }
                Done::Back(..) => unreachable!(),
            }
        }
        Ok(out)
    }

    pub fn intrinsic(&mut self, st: State<'tcx>, name: &str, a: GenericArgsRef<'tcx>, vs: Vec<Val<'tcx>>, dty: Ty<'tcx>) -> R<Outs<'tcx>> {
        let mut st = st;
        let unit = self.unit();
        self.prims.insert(format!("intrinsic {name}"));
        let v = match name {
            "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => unit,
            "forget" => unit,
            "likely" | "unlikely" | "black_box" => vs[0].clone(),
            "transmute" | "transmute_unchecked" => {
                let (from, to) = (a.type_at(0), a.type_at(1));
                self.cast(&mut st, rustc_middle::mir::CastKind::Transmute, vs[0].clone(), from, to)?
            }
            "read_via_copy" | "volatile_load" => {
                let Some(l) = self.ptr(&vs[0]) else { und!(self, "{name}") };
                return Ok(self.ptr_read(st, &l, dty)?.unwrap());
            }
            "write_via_move" => {
                let Some(l) = self.ptr(&vs[0]) else { und!(self, "{name}") };
                self.write(&mut st, &l, vs[1].clone())?;
                unit
            }
            "discriminant_value" => {
                let Some(l) = self.ptr(&vs[0]) else { und!(self, "{name}") };
                return Ok(self.discriminant(st, &l, a.type_at(0))?.into_iter().map(|(s, v)| (Out::Ret(v), s)).collect());
            }
            "const_eval_select" => {
                let mut it = vs.into_iter();
                let tup = it.next().unwrap();
                it.next();
                let rt = it.next().unwrap();
                let Val::Adt(_, _, args) = tup else { und!(self, "{name}") };
                return self.call_value(st, rt, args, dty);
            }
            "is_val_statically_known" => Val::bool(false),
            "ptr_metadata" => match &vs[0] {
                Val::Ref(l) if dty.is_usize() => {
                    let l = l.clone();
                    Val::Int(self.loc_len(&mut st, &l)?)
                }
                _ => Val::Top,
            },
            "abort" | "breakpoint" => return Ok(vec![(Out::Panic("abort".into(), self.span), st)]),
            "unreachable" => ub!(self, "unreachable intrinsic is reachable"),
            "needs_drop" | "size_of" | "min_align_of" | "align_of" | "size_of_val" | "type_id" | "type_name" => Val::Top,
            "offset" | "arith_offset" => {
                return Ok(self
                    .binop(st, rustc_middle::mir::BinOp::Offset, vs[0].clone(), vs[1].clone(), dty)?
                    .into_iter()
                    .map(|(s, v)| (Out::Ret(v), s))
                    .collect())
            }
            "add_with_overflow" | "sub_with_overflow" | "wrapping_add" | "wrapping_sub" | "unchecked_add" | "unchecked_sub" => {
                use rustc_middle::mir::BinOp::*;
                let op = match name {
                    "add_with_overflow" => AddWithOverflow,
                    "sub_with_overflow" => SubWithOverflow,
                    "wrapping_add" => Add,
                    "wrapping_sub" => Sub,
                    "unchecked_add" => AddUnchecked,
                    _ => SubUnchecked,
                };
                return Ok(self
                    .binop(st, op, vs[0].clone(), vs[1].clone(), dty)?
                    .into_iter()
                    .map(|(s, v)| (Out::Ret(v), s))
                    .collect());
            }
            _ => {
                if vs.iter().any(|v| self.tracked(v)) {
                    und!(self, "intrinsic {name}");
                }
                Val::Top
            }
        };
        Ok(vec![(Out::Ret(v), st)])
    }
}
