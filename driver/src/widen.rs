//! Widening of loop states: anti-unification of consecutive iterates into an
//! inductive candidate, and the inclusion check that makes it an invariant.
use crate::lin::*;
use crate::val::*;
use std::rc::Rc;

pub trait Gen: Sized {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self>;
}
impl Gen for Lin {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        gen_lin(a, b, c, k)
    }
}
impl<T: Gen> Gen for Rc<T> {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        Some(Rc::new(T::gen(a, b, c, k)?))
    }
}
fn gen_vec<T: Gen>(a: &[T], b: &[T], c: &[T], k: &Lin) -> Option<Vec<T>> {
    if a.len() != b.len() || b.len() != c.len() {
        return None;
    }
    (0..a.len()).map(|i| T::gen(&a[i], &b[i], &c[i], k)).collect()
}
impl<'tcx> Gen for Term<'tcx> {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        use Term::*;
        Some(match (a, b, c) {
            (Root(x), Root(y), Root(z)) if x == y && y == z => Root(*x),
            (Proj(x, p, q), Proj(y, p2, q2), Proj(z, p3, q3))
                if p == p2 && p2 == p3 && q == q2 && q2 == q3 =>
            {
                Proj(Gen::gen(x, y, z, k)?, *p, *q)
            }
            (Elem(x, l), Elem(y, m), Elem(z, n)) => {
                Elem(Gen::gen(x, y, z, k)?, Gen::gen(l, m, n, k)?)
            }
            (Ret(x), Ret(y), Ret(z)) => Ret(Gen::gen(x, y, z, k)?),
            (Err(x), Err(y), Err(z)) => Err(Gen::gen(x, y, z, k)?),
            (FRet(x), FRet(y), FRet(z)) => FRet(Gen::gen(x, y, z, k)?),
            (FErr(x), FErr(y), FErr(z)) => FErr(Gen::gen(x, y, z, k)?),
            _ => return None,
        })
    }
}
impl<'tcx> Gen for FKey<'tcx> {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        if a.ty != b.ty || b.ty != c.ty || a.marker != b.marker || b.marker != c.marker || a.fallible != b.fallible || b.fallible != c.fallible {
            return None;
        }
        Some(FKey { ty: a.ty, marker: a.marker, fallible: a.fallible, arg: Gen::gen(&a.arg, &b.arg, &c.arg, k)? })
    }
}
impl<'tcx> Gen for Ev<'tcx> {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        Some(match (a, b, c) {
            (Ev::Call(x, o), Ev::Call(y, p), Ev::Call(z, q)) if o == p && p == q => {
                Ev::Call(Gen::gen(x, y, z, k)?, *o)
            }
            (Ev::FMap(x, o), Ev::FMap(y, p), Ev::FMap(z, q)) if o == p && p == q => {
                Ev::FMap(Gen::gen(x, y, z, k)?, *o)
            }
            _ => return None,
        })
    }
}
impl Gen for P {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        Some(match (a, b, c) {
            (P::Idx(x), P::Idx(y), P::Idx(z)) => P::Idx(Gen::gen(x, y, z, k)?),
            (P::Slice(x, x2), P::Slice(y, y2), P::Slice(z, z2)) => {
                P::Slice(Gen::gen(x, y, z, k)?, Gen::gen(x2, y2, z2, k)?)
            }
            (x, y, z) if x == y && y == z => x.clone(),
            _ => return None,
        })
    }
}
impl<T: Gen + Sub + Clone + PartialEq> Gen for Chunk<T> {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        Some(match (a, b, c) {
            (Chunk::One(x), Chunk::One(y), Chunk::One(z)) => Chunk::One(T::gen(x, y, z, k)?),
            (Chunk::Rep(x, s), Chunk::Rep(y, t), Chunk::Rep(z, u)) => {
                Chunk::Rep(Gen::gen(x, y, z, k)?, gen_vec(s, t, u, k)?)
            }
            _ => return None,
        })
    }
}
/// chunk lists: a common prefix, a part growing by the same number of items
/// every iteration, and a tail
fn gen_chunks<T: Gen + Sub + Clone + PartialEq>(
    a: &[Chunk<T>],
    b: &[Chunk<T>],
    c: &[Chunk<T>],
    k: &Lin,
) -> Option<Vec<Chunk<T>>> {
    if a.len() == b.len() && b.len() == c.len() {
        return gen_vec(a, b, c, k);
    }
    let m = b.len().checked_sub(a.len())?;
    if m == 0 || c.len() != b.len() + m {
        return None;
    }
    let ones = |s: &[Chunk<T>]| -> Option<Vec<T>> {
        s.iter().map(|c| if let Chunk::One(x) = c { Some(x.clone()) } else { None }).collect()
    };
    let iota = Lin::sym(IOTA);
    for p in (0..=a.len()).rev() {
        let go = || -> Option<Vec<Chunk<T>>> {
            let mut out = gen_vec(&a[..p], &b[..p], &c[..p], k)?;
            if b[p..p + m] != c[p..p + m] {
                return None;
            }
            let d1 = ones(&b[p..p + m])?;
            let d2 = ones(&c[p + m..p + 2 * m])?;
            let mut t = vec![];
            for (x, y) in d1.iter().zip(&d2) {
                t.push(gen2(x, y, &iota)?);
            }
            out.push(Chunk::Rep(k.clone(), t));
            out.extend(gen_vec(&a[p..], &b[p + m..], &c[p + 2 * m..], k)?);
            Some(out)
        };
        if let Some(o) = go() {
            return Some(o);
        }
    }
    None
}
/// linear extrapolation of two consecutive items
fn gen2<T: Gen>(x: &T, y: &T, k: &Lin) -> Option<T> {
    let old = TWO.with(|e| e.replace(true));
    let r = T::gen(x, y, y, k);
    TWO.with(|e| e.set(old));
    r
}
thread_local! { static TWO: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// generalise three successive values of an expression (two if `TWO` is set)
fn gen_lin(a: &Lin, b: &Lin, c: &Lin, k: &Lin) -> Option<Lin> {
    let two = TWO.with(|e| e.get());
    if a == b && b == c {
        return Some(a.clone());
    }
    let d1 = b.sub(a).konst()?;
    let d2 = if two { d1 } else { c.sub(b).konst()? };
    (d1 == d2).then(|| a.axpy(d1, k))
}

impl<T: Gen + Sub + Clone + PartialEq> Gen for Vec<Chunk<T>> {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        gen_chunks(a, b, c, k)
    }
}
impl<'tcx> Gen for Val<'tcx> {
    fn gen(a: &Self, b: &Self, c: &Self, k: &Lin) -> Option<Self> {
        use Val::*;
        Some(match (a, b, c) {
            (Uninit, Uninit, Uninit) => Uninit,
            (Stale, _, _) | (_, Stale, _) | (_, _, Stale) => Stale,
            (Top, Top, Top) => Top,
            (Int(x), Int(y), Int(z)) => match Gen::gen(x, y, z, k) {
                Some(l) => Int(l),
                None => return None,
            },
            (Fn(x), Fn(y), Fn(z)) if x == y && y == z => Fn(*x),
            (Adt(t, v, f), Adt(t2, v2, f2), Adt(t3, v3, f3))
                if t == t2 && t2 == t3 && v == v2 && v2 == v3 =>
            {
                Adt(*t, *v, gen_vec(f, f2, f3, k)?)
            }
            (Ref(l), Ref(m), Ref(n))
                if l.frame == m.frame && m.frame == n.frame && l.local == m.local && m.local == n.local =>
            {
                Ref(Loc { frame: l.frame, local: l.local, proj: gen_vec(&l.proj, &m.proj, &n.proj, k)? })
            }
            (Sym(x, t), Sym(y, t2), Sym(z, t3)) if t == t2 && t2 == t3 => Sym(Gen::gen(x, y, z, k)?, *t),
            (Seq(x), Seq(y), Seq(z)) if x.ty == y.ty && y.ty == z.ty => {
                let norm = x.norm || y.norm || z.norm;
                // the flag may only be raised by the first insertion
                if (x.norm != norm || y.norm != norm || z.norm != norm) && !x.ch.is_empty() {
                    return None;
                }
                Seq(Box::new(SeqV { ty: x.ty, ch: gen_chunks(&x.ch, &y.ch, &z.ch, k)?, norm }))
            }
            (Boxed(t, x), Boxed(t2, y), Boxed(t3, z)) if t == t2 && t2 == t3 => {
                Boxed(*t, Box::new(Gen::gen(&**x, &**y, &**z, k)?))
            }
            _ => return None,
        })
    }
}

/// generalise locals, giving up on a local (or component) rather than failing
pub fn gen_loose<'tcx>(a: &Val<'tcx>, b: &Val<'tcx>, c: &Val<'tcx>, k: &Lin) -> Val<'tcx> {
    if let Some(v) = Gen::gen(a, b, c, k) {
        return v;
    }
    match (a, b, c) {
        (Val::Adt(t, v, f), Val::Adt(t2, v2, f2), Val::Adt(t3, v3, f3))
            if t == t2 && t2 == t3 && v == v2 && v2 == v3 && f.len() == f2.len() && f2.len() == f3.len() =>
        {
            Val::Adt(*t, *v, (0..f.len()).map(|i| gen_loose(&f[i], &f2[i], &f3[i], k)).collect())
        }
        (Val::Int(_) | Val::Top, Val::Int(_) | Val::Top, Val::Int(_) | Val::Top) => Val::Top,
        _ => Val::Stale,
    }
}

pub fn generalise<'tcx>(a: &State<'tcx>, b: &State<'tcx>, c: &State<'tcx>, ks: Sym) -> Option<State<'tcx>> {
    let k = Lin::sym(ks);
    if a.frames.len() != b.frames.len() || b.frames.len() != c.frames.len() {
        return None;
    }
    let mut frames = vec![];
    for i in 0..a.frames.len() {
        let (x, y, z) = (&a.frames[i], &b.frames[i], &c.frames[i]);
        if x.len() != y.len() || y.len() != z.len() {
            return None;
        }
        frames.push((0..x.len()).map(|j| gen_loose(&x[j], &y[j], &z[j], &k)).collect());
    }
    let trace = gen_chunks(&a.trace, &b.trace, &c.trace, &k)?;
    let drops = gen_chunks(&a.drops, &b.drops, &c.drops, &k)?;
    let facts = a.facts.iter().filter(|f| b.facts.contains(f) && c.facts.contains(f)).cloned().collect();
    if a.eqs != b.eqs || b.eqs != c.eqs {
        return None;
    }
    let mut cons = Cons::default();
    // what later iterates sharpen still holds as it was at first
    for x in c.cons.v.iter().chain(&a.cons.v) {
        if a.cons.implied(x) && b.cons.implied(x) && c.cons.implied(x) && !cons.v.contains(x) {
            cons.v.push(x.clone());
            continue;
        }
        for y in &b.cons.v {
            if let Some(d) = x.sub(y).konst() {
                let base = y.addk(-d);
                if a.cons.implied(&base) && !y.t.is_empty() {
                    let g = base.axpy(d, &k);
                    if !cons.v.contains(&g) {
                        cons.v.push(g);
                    }
                }
            }
        }
    }
    Some(State { frames, trace, drops, facts, cons, eqs: a.eqs.clone() })
}

pub fn val_leq<'tcx>(v: &Val<'tcx>, g: &Val<'tcx>) -> bool {
    match (v, g) {
        (_, Val::Stale) => true,
        (Val::Int(_) | Val::Top, Val::Top) => true,
        (Val::Adt(t, k, f), Val::Adt(t2, k2, f2)) if t == t2 && k == k2 && f.len() == f2.len() => {
            f.iter().zip(f2).all(|(x, y)| val_leq(x, y))
        }
        _ => v == g,
    }
}

/// `v` (a state at the back edge, in terms of k) against `g` (the candidate
/// with k replaced by k+1); Err lists the constraints that do not carry over
pub fn state_leq<'tcx>(v: &State<'tcx>, g: &State<'tcx>) -> Result<Vec<usize>, String> {
    if v.frames.len() != g.frames.len() {
        return Err("frame count".into());
    }
    for (i, (x, y)) in v.frames.iter().zip(&g.frames).enumerate() {
        for (j, (p, q)) in x.iter().zip(y).enumerate() {
            let (p, q) = (norm_val(p), norm_val(q));
            if !val_leq(&p, &q) {
                return Err(format!("frame {i} local {j}: {p:?} vs {q:?}"));
            }
        }
    }
    if normalise(&v.trace) != normalise(&g.trace) {
        return Err(format!("trace {:?} vs {:?}", normalise(&v.trace), normalise(&g.trace)));
    }
    if normalise(&v.drops) != normalise(&g.drops) {
        return Err(format!("drops {:?} vs {:?}", v.drops, g.drops));
    }
    if v.eqs != g.eqs {
        return Err("equations".into());
    }
    for f in &g.facts {
        if !v.facts.contains(f) {
            return Err("facts".into());
        }
    }
    Ok((0..g.cons.v.len()).filter(|i| !v.cons.implied(&g.cons.v[*i])).collect())
}
