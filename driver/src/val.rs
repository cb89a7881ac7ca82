//! Abstract values, events and states.
use crate::lin::*;
use rustc_middle::ty::{Ty, TyCtxt};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Term<'tcx> {
    Root(u32),
    Proj(Rc<Term<'tcx>>, u32, u32),
    Elem(Rc<Term<'tcx>>, Lin),
    /// successful result of the closure for this argument
    Ret(Rc<Val<'tcx>>),
    /// error returned by the closure for this argument
    Err(Rc<Val<'tcx>>),
    /// result of a nested mapping call
    FRet(Rc<FKey<'tcx>>),
    FErr(Rc<FKey<'tcx>>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct FKey<'tcx> {
    pub ty: Ty<'tcx>,
    pub marker: Ty<'tcx>,
    pub fallible: bool,
    pub arg: Val<'tcx>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Oc {
    Ok,
    Err,
    Unwind,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev<'tcx> {
    Call(Val<'tcx>, Oc),
    FMap(FKey<'tcx>, Oc),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Chunk<T> {
    One(T),
    Rep(Lin, Vec<T>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum P {
    Field(u32),
    Down(u32),
    Deref,
    Idx(Lin),
    Slice(Lin, Lin),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Loc {
    pub frame: u32,
    pub local: u32,
    pub proj: Vec<P>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SeqV<'tcx> {
    pub ty: Ty<'tcx>,
    pub ch: Vec<Chunk<Val<'tcx>>>,
    /// passed through a collection that reorders or deduplicates
    pub norm: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val<'tcx> {
    Uninit,
    /// a location whose content differs between loop iterations
    Stale,
    /// unknown value that carries no tracked data
    Top,
    Int(Lin),
    Fn(Ty<'tcx>),
    Adt(Ty<'tcx>, u32, Vec<Val<'tcx>>),
    Ref(Loc),
    Sym(Rc<Term<'tcx>>, Ty<'tcx>),
    Seq(Box<SeqV<'tcx>>),
    Boxed(Ty<'tcx>, Box<Val<'tcx>>),
}

impl<'tcx> Val<'tcx> {
    pub fn unit(tcx: TyCtxt<'tcx>) -> Val<'tcx> {
        Val::Adt(tcx.types.unit, 0, vec![])
    }
    pub fn bool(b: bool) -> Val<'tcx> {
        Val::Int(Lin::k(b as i128))
    }
}

pub trait Sub: Sized {
    fn sub_(&self, s: Sym, e: &Lin) -> Self;
}
impl Sub for Lin {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        self.subst(s, e)
    }
}
impl<T: Sub> Sub for Vec<T> {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        self.iter().map(|x| x.sub_(s, e)).collect()
    }
}
impl<T: Sub> Sub for Rc<T> {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        Rc::new((**self).sub_(s, e))
    }
}
impl<T: Sub + Clone> Sub for Chunk<T> {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        match self {
            Chunk::One(x) => Chunk::One(x.sub_(s, e)),
            Chunk::Rep(n, t) => {
                let n = n.subst(s, e);
                if s == IOTA {
                    Chunk::Rep(n, t.clone())
                } else {
                    Chunk::Rep(n, t.sub_(s, e))
                }
            }
        }
    }
}
impl<'tcx> Sub for Term<'tcx> {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        match self {
            Term::Root(r) => Term::Root(*r),
            Term::Proj(t, a, b) => Term::Proj(t.sub_(s, e), *a, *b),
            Term::Elem(t, l) => Term::Elem(t.sub_(s, e), l.subst(s, e)),
            Term::Ret(v) => Term::Ret(v.sub_(s, e)),
            Term::Err(v) => Term::Err(v.sub_(s, e)),
            Term::FRet(k) => Term::FRet(k.sub_(s, e)),
            Term::FErr(k) => Term::FErr(k.sub_(s, e)),
        }
    }
}
impl<'tcx> Sub for FKey<'tcx> {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        FKey { ty: self.ty, marker: self.marker, fallible: self.fallible, arg: self.arg.sub_(s, e) }
    }
}
impl<'tcx> Sub for Ev<'tcx> {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        match self {
            Ev::Call(v, o) => Ev::Call(v.sub_(s, e), *o),
            Ev::FMap(k, o) => Ev::FMap(k.sub_(s, e), *o),
        }
    }
}
impl Sub for P {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        match self {
            P::Idx(l) => P::Idx(l.subst(s, e)),
            P::Slice(a, b) => P::Slice(a.subst(s, e), b.subst(s, e)),
            p => p.clone(),
        }
    }
}
impl<'tcx> Sub for Val<'tcx> {
    fn sub_(&self, s: Sym, e: &Lin) -> Self {
        match self {
            Val::Int(l) => Val::Int(l.subst(s, e)),
            Val::Adt(t, v, f) => Val::Adt(*t, *v, f.sub_(s, e)),
            Val::Ref(l) => Val::Ref(Loc { frame: l.frame, local: l.local, proj: l.proj.sub_(s, e) }),
            Val::Sym(t, ty) => Val::Sym(t.sub_(s, e), *ty),
            Val::Seq(q) => Val::Seq(Box::new(SeqV { ty: q.ty, ch: q.ch.sub_(s, e), norm: q.norm })),
            Val::Boxed(t, b) => Val::Boxed(*t, Box::new(b.sub_(s, e))),
            v => v.clone(),
        }
    }
}

/// canonical form: adjacent chunks merged as far as possible
pub fn normalise<T: Sub + Clone + PartialEq>(ch: &[Chunk<T>]) -> Vec<Chunk<T>> {
    let mut out: Vec<Chunk<T>> = vec![];
    let mut todo: std::collections::VecDeque<Chunk<T>> = ch.iter().cloned().collect();
    while let Some(c) = todo.pop_front() {
        let c = match c {
            Chunk::Rep(n, t) => match n.konst() {
                Some(k) if k <= 0 => continue,
                Some(k) if k <= 8 => {
                    for j in (0..k).rev() {
                        for x in t.iter().rev() {
                            todo.push_front(Chunk::One(x.sub_(IOTA, &Lin::k(j))));
                        }
                    }
                    continue;
                }
                _ => Chunk::Rep(n, t),
            },
            c => c,
        };
        out.push(c);
    }
    // merge
    loop {
        let mut changed = false;
        let mut i = 0;
        while i + 1 < out.len() {
            // Rep, Rep
            if let (Chunk::Rep(a, t1), Chunk::Rep(b, t2)) = (&out[i], &out[i + 1]) {
                let shifted = t1.sub_(IOTA, &Lin::sym(IOTA).add(a));
                if &shifted == t2 {
                    out[i] = Chunk::Rep(a.add(b), t1.clone());
                    out.remove(i + 1);
                    changed = true;
                    continue;
                }
            }
            // Rep followed by |t| Ones
            if let Chunk::Rep(a, t) = &out[i] {
                let m = t.len();
                if i + m < out.len() {
                    let ok = (0..m).all(|j| match &out[i + 1 + j] {
                        Chunk::One(x) => *x == t[j].sub_(IOTA, a),
                        _ => false,
                    });
                    if ok {
                        out[i] = Chunk::Rep(a.addk(1), t.clone());
                        out.drain(i + 1..i + 1 + m);
                        changed = true;
                        continue;
                    }
                }
            }
            i += 1;
        }
        // Ones followed by Rep
        let mut i = 0;
        while i < out.len() {
            if let Chunk::Rep(a, t) = &out[i] {
                let m = t.len();
                if i >= m {
                    let prev = t.sub_(IOTA, &Lin::sym(IOTA).addk(-1));
                    let ok = (0..m).all(|j| match &out[i - m + j] {
                        Chunk::One(x) => *x == prev[j].sub_(IOTA, &Lin::k(0)),
                        _ => false,
                    });
                    if ok {
                        out[i] = Chunk::Rep(a.addk(1), prev);
                        out.drain(i - m..i);
                        changed = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !changed {
            return out;
        }
    }
}

pub fn norm_val<'tcx>(v: &Val<'tcx>) -> Val<'tcx> {
    match v {
        Val::Adt(t, k, f) => Val::Adt(*t, *k, f.iter().map(norm_val).collect()),
        Val::Seq(q) => {
            let ch: Vec<_> = q
                .ch
                .iter()
                .map(|c| match c {
                    Chunk::One(x) => Chunk::One(norm_val(x)),
                    Chunk::Rep(n, t) => Chunk::Rep(n.clone(), t.iter().map(norm_val).collect()),
                })
                .collect();
            Val::Seq(Box::new(SeqV { ty: q.ty, ch: normalise(&ch), norm: q.norm }))
        }
        Val::Boxed(t, b) => Val::Boxed(*t, Box::new(norm_val(b))),
        v => v.clone(),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct State<'tcx> {
    pub frames: Vec<Vec<Val<'tcx>>>,
    pub trace: Vec<Chunk<Ev<'tcx>>>,
    pub drops: Vec<Chunk<Val<'tcx>>>,
    /// decided variants of symbolic enum values
    pub facts: Vec<(Rc<Term<'tcx>>, u32)>,
    pub cons: Cons,
    /// equations discovered on the path: symbol := expression
    pub eqs: Vec<(Sym, Lin)>,
}

impl<'tcx> State<'tcx> {
    pub fn subst(&self, s: Sym, e: &Lin) -> State<'tcx> {
        let mut cons = self.cons.clone();
        cons.subst(s, e);
        State {
            frames: self.frames.iter().map(|f| f.sub_(s, e)).collect(),
            trace: self.trace.sub_(s, e),
            drops: self.drops.sub_(s, e),
            facts: self.facts.iter().map(|(t, v)| (t.sub_(s, e), *v)).collect(),
            cons,
            eqs: self
                .eqs
                .iter()
                .map(|(q, l)| (*q, l.subst(s, e)))
                .chain([(s, e.clone())])
                .collect(),
        }
    }
    pub fn fix<T: Sub + Clone>(&self, v: &T) -> T {
        let mut v = v.clone();
        for (s, e) in &self.eqs {
            v = v.sub_(*s, e);
        }
        v
    }
    pub fn fix_loc(&self, l: &Loc) -> Loc {
        if self.eqs.is_empty() || l.proj.is_empty() {
            return l.clone();
        }
        Loc { frame: l.frame, local: l.local, proj: self.fix(&l.proj) }
    }
    pub fn resolve(&self, l: &Lin) -> Lin {
        let mut l = l.clone();
        for _ in 0..4 {
            for (s, e) in &self.eqs {
                l = l.subst(*s, e);
            }
        }
        l
    }
    pub fn assume_eq(&self, e: &Lin) -> Option<State<'tcx>> {
        let s = self.assume(e)?;
        let s = s.assume(&s.resolve(e).neg())?;
        let e = s.resolve(e);
        match e.konst() {
            Some(0) => Some(s),
            Some(_) => None,
            None => s.solve(&e),
        }
    }
    /// substitute the youngest symbol with unit coefficient, given `e == 0`
    fn solve(&self, e: &Lin) -> Option<State<'tcx>> {
        if let Some((s, k)) = e.t.iter().rev().find(|(s, k)| k.abs() == 1 && **s != IOTA) {
            let mut rest = e.clone();
            rest.t.remove(s);
            let val = rest.scale(-*k);
            if val.konst().map_or(false, |c| c < 0) {
                return None;
            }
            return Some(self.subst(*s, &val));
        }
        Some(self.clone())
    }
    /// assume `e >= 0`; None if that contradicts the path
    pub fn assume(&self, e: &Lin) -> Option<State<'tcx>> {
        if self.cons.refuted(e) {
            return None;
        }
        let mut st = self.clone();
        if st.cons.implied(e) {
            return Some(st);
        }
        st.cons.push(e.clone());
        if st.cons.implied(&e.neg()) {
            return st.solve(e);
        }
        Some(st)
    }
}


impl<'tcx> State<'tcx> {
    pub fn fix2(&self, b: &(Lin, Option<Lin>)) -> (Lin, Option<Lin>) {
        (self.resolve(&b.0), b.1.as_ref().map(|x| self.resolve(x)))
    }
}
