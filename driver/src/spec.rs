//! Specifications: the functorial action of a mapping, and the comparison of
//! every abstract exit of a function against it.
use crate::eng::*;
use crate::lin::*;
use crate::val::*;
use rustc_middle::ty::{Ty, TyKind, TypeVisitableExt};
use std::rc::Rc;

pub struct Expect<'tcx> {
    pub st: State<'tcx>,
    pub events: Vec<Chunk<Ev<'tcx>>>,
    pub result: Val<'tcx>,
}

pub fn mentions<'tcx>(t: Ty<'tcx>, a: Ty<'tcx>) -> bool {
    t.walk().any(|g| g.as_type() == Some(a))
}

impl<'tcx> Eng<'tcx> {
    /// the functorial action on `v: ty` at the type `a`, giving a value of type `out`
    pub fn action(&mut self, st: State<'tcx>, v: Val<'tcx>, ty: Ty<'tcx>, out: Ty<'tcx>, a: Ty<'tcx>, b: Ty<'tcx>) -> R<Vec<Expect<'tcx>>> {
        if ty == a {
            let arg = self.canon(&v);
            let r = self.mk_sym(Rc::new(Term::Ret(Rc::new(arg.clone()))), b);
            return Ok(vec![Expect { st, events: vec![Chunk::One(Ev::Call(arg, Oc::Ok))], result: r }]);
        }
        if !mentions(ty, a) {
            return Ok(vec![Expect { st, events: vec![], result: v }]);
        }
        if let Some(item) = self.opaque_item(ty) {
            let Some(oitem) = self.opaque_item(out) else { und!(self, "output type {out:?} is not a collection") };
            let Val::Seq(q) = v else { und!(self, "collection value {v:?}") };
            let norm = self.reorders(out);
            let mut st = st;
            let mut events = vec![];
            let mut res = vec![];
            for c in &q.ch {
                match c {
                    Chunk::One(x) => {
                        let mut e = self.action(st, x.clone(), item, oitem, a, b)?;
                        if e.len() != 1 {
                            und!(self, "elements are enums");
                        }
                        let e = e.pop().unwrap();
                        st = e.st;
                        events.extend(e.events);
                        res.push(Chunk::One(e.result));
                    }
                    Chunk::Rep(n, t) => {
                        let mut evs = vec![];
                        let mut rs = vec![];
                        for x in t {
                            let mut e = self.action(st, x.clone(), item, oitem, a, b)?;
                            if e.len() != 1 {
                                und!(self, "elements are enums");
                            }
                            let e = e.pop().unwrap();
                            st = e.st;
                            for c in e.events {
                                let Chunk::One(c) = c else { und!(self, "nested collections") };
                                evs.push(c);
                            }
                            rs.push(e.result);
                        }
                        events.push(Chunk::Rep(n.clone(), evs));
                        res.push(Chunk::Rep(n.clone(), rs));
                    }
                }
            }
            return Ok(vec![Expect { st, events, result: Val::Seq(Box::new(SeqV { ty: out, ch: res, norm })) }]);
        }
        match ty.kind() {
            TyKind::Adt(d, _) if d.is_phantom_data() => {
                Ok(vec![Expect { st, events: vec![], result: Val::Adt(out, 0, vec![]) }])
            }
            TyKind::Adt(d, _) if d.is_box() => {
                let mut v = v;
                self.expand(&mut v, &[]);
                let Val::Boxed(_, x) = v else { und!(self, "box value") };
                let (i, o) = (ty.boxed_ty().unwrap(), out.boxed_ty().unwrap_or(out));
                let es = self.action(st, *x, i, o, a, b)?;
                Ok(es
                    .into_iter()
                    .map(|e| Expect { result: Val::Boxed(out, Box::new(e.result)), ..e })
                    .collect())
            }
            TyKind::Adt(d, _) if d.is_union() => und!(self, "union {ty:?}"),
            TyKind::Adt(..) | TyKind::Tuple(_) => {
                let foreign = matches!(ty.kind(), TyKind::Adt(d, _) if !d.did().is_local());
                let mut res = vec![];
                for (st, v) in self.split_enum(st, v)? {
                    let mut v = v;
                    let facts = st.facts.clone();
                    self.expand(&mut v, &facts);
                    let Val::Adt(_, k, fs) = v else { und!(self, "aggregate value {v:?} of type {ty:?}") };
                    let mut cur: Vec<(State<'tcx>, Vec<Chunk<Ev<'tcx>>>, Vec<Val<'tcx>>)> = vec![(st, vec![], vec![])];
                    for (i, x) in fs.into_iter().enumerate() {
                        let (it, ot) = match (self.field_ty(ty, k, i as u32), self.field_ty(out, k, i as u32)) {
                            (Some(x), Some(y)) => (x, y),
                            _ => und!(self, "output type {out:?} does not have the shape of {ty:?}"),
                        };
                        let private = foreign
                            && match ty.kind() {
                                TyKind::Adt(d, _) => !d.variants()[rustc_abi::VariantIdx::from_u32(k)].fields[field_idx(i as u32)]
                                    .vis
                                    .is_public(),
                                _ => false,
                            };
                        let mut next = vec![];
                        for (s, ev, rs) in cur {
                            if private && !mentions(it, a) {
                                // representation detail of a foreign type
                                let mut rs = rs;
                                rs.push(Val::Stale);
                                next.push((s, ev, rs));
                                continue;
                            }
                            for e in self.action(s, x.clone(), it, ot, a, b)? {
                                let mut ev = ev.clone();
                                ev.extend(e.events);
                                let mut rs = rs.clone();
                                rs.push(e.result);
                                next.push((e.st, ev, rs));
                            }
                        }
                        cur = next;
                    }
                    for (s, ev, rs) in cur {
                        res.push(Expect { st: s, events: ev, result: Val::Adt(out, k, rs) });
                    }
                }
                Ok(res)
            }
            _ => und!(self, "type {ty:?} cannot be mapped at {a:?}"),
        }
    }

    pub fn val_eq(&mut self, st: &State<'tcx>, act: &Val<'tcx>, exp: &Val<'tcx>) -> bool {
        if matches!(exp, Val::Stale) {
            return true;
        }
        let act = self.canon(&st.fix(act));
        let exp = self.canon(&st.fix(exp));
        if act == exp {
            return true;
        }
        match (&act, &exp) {
            (Val::Sym(..), Val::Adt(..)) | (Val::Sym(..), Val::Boxed(..)) => {
                let mut a = act.clone();
                self.expand(&mut a, &st.facts) && self.val_eq2(st, &a, &exp)
            }
            (Val::Adt(..), Val::Sym(..)) | (Val::Boxed(..), Val::Sym(..)) => {
                let mut e = exp.clone();
                self.expand(&mut e, &st.facts) && self.val_eq2(st, &act, &e)
            }
            _ => self.val_eq2(st, &act, &exp),
        }
    }
    fn val_eq2(&mut self, st: &State<'tcx>, a: &Val<'tcx>, e: &Val<'tcx>) -> bool {
        match (a, e) {
            (Val::Adt(t, k, f), Val::Adt(u, l, g)) => {
                t == u && k == l && f.len() == g.len() && f.iter().zip(g).all(|(x, y)| self.val_eq(st, x, y))
            }
            (Val::Boxed(t, x), Val::Boxed(u, y)) => t == u && self.val_eq(st, x, y),
            (Val::Seq(p), Val::Seq(q)) => {
                (p.ty == q.ty) && (p.norm == q.norm || p.ch.is_empty()) && {
                    let (pc, qc) = (p.ch.clone(), q.ch.clone());
                    self.match_chunks(st, &pc, &qc, false, &mut |s, st, x, y| s.val_eq(st, x, y)).is_ok()
                }
            }
            _ => false,
        }
    }

    pub fn ev_eq(&mut self, st: &State<'tcx>, a: &Ev<'tcx>, e: &Ev<'tcx>) -> bool {
        match (a, e) {
            (Ev::Call(x, o), Ev::Call(y, p)) => o == p && self.val_eq(st, x, y),
            (Ev::FMap(x, o), Ev::FMap(y, p)) => {
                o == p && x.ty == y.ty && x.marker == y.marker && x.fallible == y.fallible && self.val_eq(st, &x.arg, &y.arg)
            }
            _ => false,
        }
    }

    /// match two chunk lists under the constraints of `st`; with `prefix` the
    /// second list may be longer
    pub fn match_chunks<T: Sub + Clone + PartialEq + std::fmt::Debug>(
        &mut self,
        st: &State<'tcx>,
        a: &[Chunk<T>],
        e: &[Chunk<T>],
        prefix: bool,
        eq: &mut dyn FnMut(&mut Self, &State<'tcx>, &T, &T) -> bool,
    ) -> Result<Vec<Chunk<T>>, String> {
        use std::collections::VecDeque;
        let mut a: VecDeque<Chunk<T>> = normalise(&st.fix(&a.to_vec())).into();
        let mut e: VecDeque<Chunk<T>> = normalise(&st.fix(&e.to_vec())).into();
        let unroll = |q: &mut VecDeque<Chunk<T>>| {
            let Some(Chunk::Rep(n, t)) = q.pop_front() else { unreachable!() };
            q.push_front(Chunk::Rep(n.addk(-1), t.sub_(IOTA, &Lin::sym(IOTA).addk(1))));
            for x in t.iter().rev() {
                q.push_front(Chunk::One(x.sub_(IOTA, &Lin::k(0))));
            }
        };
        let empty = |c: &Chunk<T>| match c {
            Chunk::Rep(n, t) => t.is_empty() || st.cons.implied(&n.neg()),
            _ => false,
        };
        for _ in 0..500 {
            while a.front().map_or(false, empty) {
                a.pop_front();
            }
            while e.front().map_or(false, empty) {
                e.pop_front();
            }
            let (x, y) = match (a.front(), e.front()) {
                (None, None) => return Ok(vec![]),
                (None, Some(_)) => {
                    if prefix {
                        return Ok(e.into());
                    }
                    return Err(format!("missing: {:?}", e));
                }
                (Some(x), None) => return Err(format!("not expected: {x:?}")),
                (Some(x), Some(y)) => (x.clone(), y.clone()),
            };
            match (x, y) {
                (Chunk::One(p), Chunk::One(q)) => {
                    if !eq(self, st, &p, &q) {
                        return Err(format!("found {p:?} where {q:?} is expected"));
                    }
                    a.pop_front();
                    e.pop_front();
                }
                (Chunk::One(p), Chunk::Rep(n, t)) => {
                    if !st.cons.implied(&n.addk(-1)) {
                        return Err(format!("found {p:?} where {n:?} times {t:?} is expected"));
                    }
                    unroll(&mut e);
                }
                (Chunk::Rep(n, t), Chunk::One(q)) => {
                    if !st.cons.implied(&n.addk(-1)) {
                        return Err(format!("found {n:?} times {t:?} where {q:?} is expected"));
                    }
                    unroll(&mut a);
                }
                (Chunk::Rep(m, t), Chunk::Rep(n, u)) => {
                    let same = t.len() == u.len() && t.iter().zip(&u).all(|(x, y)| eq(self, st, x, y));
                    if !same {
                        return Err(format!("found {m:?} times {t:?} where {n:?} times {u:?} is expected"));
                    }
                    let d = n.sub(&m);
                    a.pop_front();
                    e.pop_front();
                    if st.cons.implied(&d) && st.cons.implied(&d.neg()) {
                        continue;
                    }
                    if st.cons.implied(&d) {
                        e.push_front(Chunk::Rep(d, u.sub_(IOTA, &Lin::sym(IOTA).add(&m))));
                    } else if st.cons.implied(&d.neg()) {
                        a.push_front(Chunk::Rep(d.neg(), t.sub_(IOTA, &Lin::sym(IOTA).add(&n))));
                    } else {
                        return Err(format!("{m:?} repetitions where {n:?} are expected"));
                    }
                }
            }
        }
        Err("comparison budget exceeded".into())
    }

    /// compare one exit of a function with the expected behaviour;
    /// Err explains the difference
    pub fn check_exit(&mut self, out: &Val<'tcx>, st: &State<'tcx>, exp: &Expect<'tcx>, fallible: bool) -> Result<(), String> {
        let st = &{
            let mut s = st.clone();
            for f in &exp.st.facts {
                if !s.facts.contains(f) {
                    s.facts.push(f.clone());
                }
            }
            s
        };
        if !fallible {
            self.match_chunks(st, &st.trace, &exp.events, false, &mut |s, st, x, y| s.ev_eq(st, x, y))
                .map_err(|m| format!("closure calls differ: {m}"))?;
            if !self.val_eq(st, out, &exp.result) {
                return Err(format!("result differs: got {:?}, expected {:?}", self.canon(out), self.canon(&exp.result)));
            }
            return Ok(());
        }
        let mut o = out.clone();
        self.expand(&mut o, &st.facts);
        let Val::Adt(rt, k, fs) = &o else { return Err(format!("unknown result {out:?}")) };
        if *k == self.variant_named(*rt, "Ok") {
            self.match_chunks(st, &st.trace, &exp.events, false, &mut |s, st, x, y| s.ev_eq(st, x, y))
                .map_err(|m| format!("closure calls of a successful run differ: {m}"))?;
            if !self.val_eq(st, &fs[0], &exp.result) {
                return Err(format!("result differs: got {:?}, expected {:?}", self.canon(&fs[0]), self.canon(&exp.result)));
            }
            return Ok(());
        }
        // failure: the last call failed, it is the next expected one, and its error is returned
        let mut tr = normalise(&st.trace);
        let last = match tr.pop() {
            Some(Chunk::One(e)) => e,
            x => return Err(format!("returns an error although the last event is {x:?}")),
        };
        let (okev, want) = match &last {
            Ev::Call(a, Oc::Err) => (Ev::Call(a.clone(), Oc::Ok), Term::Err(Rc::new(a.clone()))),
            Ev::FMap(k, Oc::Err) => (Ev::FMap(k.clone(), Oc::Ok), Term::FErr(Rc::new(k.clone()))),
            e => return Err(format!("returns an error although the last event is {e:?}")),
        };
        tr.push(Chunk::One(okev));
        self.match_chunks(st, &tr, &exp.events, true, &mut |s, st, x, y| s.ev_eq(st, x, y))
            .map_err(|m| format!("closure calls of a failing run differ: {m}"))?;
        match &fs[0] {
            Val::Sym(t, _) if **t == want => Ok(()),
            v => Err(format!("the error returned is {v:?}, not that of the failing call")),
        }
    }

    /// every input element is consumed by a call or dropped once; every output is
    /// in the result or dropped once
    pub fn check_memory(&mut self, out: Option<&Val<'tcx>>, st: &State<'tcx>, input: &Val<'tcx>) -> Result<(), String> {
        // inputs
        let mut used: Vec<Chunk<Val<'tcx>>> = vec![];
        let mut made: Vec<Chunk<Val<'tcx>>> = vec![];
        let ret = |s: &mut Self, a: &Val<'tcx>| -> Val<'tcx> {
            let _ = s;
            Val::Sym(Rc::new(Term::Ret(Rc::new(a.clone()))), s.tcx.types.unit)
        };
        for c in &st.trace {
            match c {
                Chunk::One(Ev::Call(a, o)) => {
                    used.push(Chunk::One(a.clone()));
                    if *o == Oc::Ok {
                        made.push(Chunk::One(ret(self, a)));
                    }
                }
                Chunk::Rep(n, t) => {
                    let mut u = vec![];
                    let mut m = vec![];
                    for e in t {
                        let Ev::Call(a, o) = e else { return Err("nested mapping".into()) };
                        u.push(a.clone());
                        if *o == Oc::Ok {
                            m.push(ret(self, a));
                        }
                    }
                    used.push(Chunk::Rep(n.clone(), u));
                    made.push(Chunk::Rep(n.clone(), m));
                }
                _ => return Err("nested mapping".into()),
            }
        }
        let unit = self.tcx.types.unit;
        let classify = |v: &Val<'tcx>| -> u8 {
            match v {
                Val::Sym(t, _) => match &**t {
                    Term::Ret(_) => 1,
                    Term::Elem(..) => 0,
                    _ => 2,
                },
                _ => 2,
            }
        };
        let erase = |v: &Val<'tcx>| match v {
            Val::Sym(t, _) => Val::Sym(t.clone(), unit),
            v => v.clone(),
        };
        let mut outs: Vec<Chunk<Val<'tcx>>> = vec![];
        for c in &st.drops {
            let (items, n) = match c {
                Chunk::One(x) => (vec![x.clone()], None),
                Chunk::Rep(n, t) => (t.clone(), Some(n.clone())),
            };
            let mk = |v: Vec<Val<'tcx>>| match &n {
                None => v.into_iter().map(Chunk::One).collect::<Vec<_>>(),
                Some(n) => {
                    if v.is_empty() {
                        vec![]
                    } else {
                        vec![Chunk::Rep(n.clone(), v)]
                    }
                }
            };
            used.extend(mk(items.iter().filter(|x| classify(x) == 0).cloned().collect()));
            outs.extend(mk(items.iter().filter(|x| classify(x) == 1).map(erase).collect()));
        }
        if let Some(v) = out {
            let mut v = v;
            if let Val::Adt(t, _, fs) = v {
                if self.ty_name(*t) == "core::result::Result" {
                    v = &fs[0];
                }
            }
            if let Val::Seq(q) = v {
                for c in &q.ch {
                    match c {
                        Chunk::One(x) if classify(x) == 1 => outs.push(Chunk::One(erase(x))),
                        Chunk::Rep(n, t) => outs.push(Chunk::Rep(n.clone(), t.iter().map(erase).collect())),
                        c => return Err(format!("the result contains {c:?}")),
                    }
                }
            }
        }
        let Val::Seq(q) = input else { return Err("input is not an array".into()) };
        self.multiset(st, &used, &q.ch).map_err(|m| format!("input elements: {m}"))?;
        self.multiset(st, &outs, &made).map_err(|m| format!("output elements: {m}"))?;
        Ok(())
    }
    fn multiset(&mut self, st: &State<'tcx>, a: &[Chunk<Val<'tcx>>], e: &[Chunk<Val<'tcx>>]) -> Result<(), String> {
        // forward orientation of every repetition
        let canon = |c: &Chunk<Val<'tcx>>| -> Chunk<Val<'tcx>> {
            match c {
                Chunk::Rep(n, t) if t.len() == 1 => {
                    let r = t[0].sub_(IOTA, &n.addk(-1).sub(&Lin::sym(IOTA)));
                    if coefficient(&t[0]) < 0 {
                        Chunk::Rep(n.clone(), vec![r])
                    } else {
                        c.clone()
                    }
                }
                c => c.clone(),
            }
        };
        let a: Vec<_> = st.fix(&a.to_vec()).iter().map(canon).collect();
        let e: Vec<_> = normalise(&st.fix(&e.to_vec()).iter().map(canon).collect::<Vec<_>>());
        let live: Vec<Chunk<Val<'tcx>>> = a
            .into_iter()
            .filter(|c| match c {
                Chunk::Rep(n, t) => !t.is_empty() && !st.cons.implied(&n.neg()),
                _ => true,
            })
            .collect();
        // order the parts by their position
        let n = live.len();
        if n > 6 {
            return self.match_chunks(st, &live, &e, false, &mut |s, st, x, y| s.val_eq(st, x, y)).map(|_| ());
        }
        let mut last = Err("no elements".to_string());
        let mut perm: Vec<usize> = (0..n).collect();
        loop {
            let p: Vec<_> = perm.iter().map(|i| live[*i].clone()).collect();
            last = match self.match_chunks(st, &p, &e, false, &mut |s, st, x, y| s.val_eq(st, x, y)) {
                Ok(_) => return Ok(()),
                Err(m) if last.is_err() && perm.iter().enumerate().all(|(i, j)| i == *j) => Err(m),
                Err(_) => last,
            };
            // next permutation
            let Some(i) = (0..n.saturating_sub(1)).rev().find(|i| perm[*i] < perm[*i + 1]) else { break };
            let j = (i + 1..n).rev().find(|j| perm[*j] > perm[i]).unwrap();
            perm.swap(i, j);
            perm[i + 1..].reverse();
        }
        last
    }
}

fn coefficient(v: &Val<'_>) -> i128 {
    fn term(t: &Term<'_>) -> i128 {
        match t {
            Term::Elem(t, l) => match l.t.get(&IOTA) {
                Some(k) => *k,
                None => term(t),
            },
            Term::Proj(t, ..) => term(t),
            Term::Ret(v) | Term::Err(v) => coefficient(v),
            _ => 0,
        }
    }
    match v {
        Val::Sym(t, _) => term(t),
        _ => 0,
    }
}

#[allow(dead_code)]
fn _unused<'tcx>(t: Ty<'tcx>) -> bool {
    t.has_param()
}
