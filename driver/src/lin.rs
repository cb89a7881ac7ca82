//! Linear index expressions and a small difference-bound constraint store.
use std::collections::BTreeMap;
use std::fmt;

pub type Sym = u32;
/// bound index variable of a `Chunk::Rep` template
pub const IOTA: Sym = 0;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub c: i128,
    pub t: BTreeMap<Sym, i128>,
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: BTreeMap::new() }
    }
    pub fn sym(s: Sym) -> Lin {
        let mut t = BTreeMap::new();
        t.insert(s, 1);
        Lin { c: 0, t }
    }
    pub fn konst(&self) -> Option<i128> {
        self.t.is_empty().then_some(self.c)
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.axpy(1, o)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.axpy(-1, o)
    }
    pub fn addk(&self, k: i128) -> Lin {
        let mut r = self.clone();
        r.c += k;
        r
    }
    pub fn neg(&self) -> Lin {
        Lin::k(0).sub(self)
    }
    pub fn axpy(&self, a: i128, o: &Lin) -> Lin {
        let mut r = self.clone();
        r.c += a * o.c;
        for (s, k) in &o.t {
            let e = r.t.entry(*s).or_insert(0);
            *e += a * k;
            if *e == 0 {
                r.t.remove(s);
            }
        }
        r
    }
    pub fn scale(&self, a: i128) -> Lin {
        Lin::k(0).axpy(a, self)
    }
    pub fn subst(&self, s: Sym, e: &Lin) -> Lin {
        match self.t.get(&s) {
            None => self.clone(),
            Some(&k) => {
                let mut r = self.clone();
                r.t.remove(&s);
                r.axpy(k, e)
            }
        }
    }
    pub fn has(&self, s: Sym) -> bool {
        self.t.contains_key(&s)
    }
}

impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for (s, k) in &self.t {
            let n = if *s == IOTA { "i".to_string() } else { format!("n{s}") };
            match (*k, first) {
                (1, true) => write!(f, "{n}")?,
                (1, false) => write!(f, "+{n}")?,
                (-1, _) => write!(f, "-{n}")?,
                (k, true) => write!(f, "{k}*{n}")?,
                (k, false) => write!(f, "{k:+}*{n}")?,
            }
            first = false;
        }
        if first {
            write!(f, "{}", self.c)
        } else if self.c != 0 {
            write!(f, "{:+}", self.c)
        } else {
            Ok(())
        }
    }
}

/// conjunction of `lin >= 0`; every symbol is non-negative by convention
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Cons {
    pub v: Vec<Lin>,
}

impl Cons {
    /// is `e >= 0` implied?
    pub fn implied(&self, e: &Lin) -> bool {
        if let Some(c) = e.konst() {
            return c >= 0;
        }
        if self.v.iter().any(|x| {
            let d = e.sub(x);
            matches!(d.konst(), Some(c) if c >= 0)
        }) {
            return true;
        }
        // difference-bound closure; node u32::MAX is the constant zero
        const Z: Sym = u32::MAX;
        let mut edges: Vec<(Sym, Sym, i128)> = vec![]; // a - b >= w
        let mut syms = std::collections::BTreeSet::new();
        let dec = |l: &Lin| -> Option<(Sym, Sym, i128)> {
            let mut pos = None;
            let mut neg = None;
            for (s, k) in &l.t {
                match k {
                    1 if pos.is_none() => pos = Some(*s),
                    -1 if neg.is_none() => neg = Some(*s),
                    _ => return None,
                }
            }
            Some((pos.unwrap_or(Z), neg.unwrap_or(Z), -l.c))
        };
        for x in self.v.iter().chain(std::iter::once(e)) {
            for s in x.t.keys() {
                syms.insert(*s);
            }
        }
        for x in &self.v {
            if let Some(e) = dec(x) {
                edges.push(e);
            }
        }
        for s in &syms {
            edges.push((*s, Z, 0));
        }
        if let Some((a, b, w)) = dec(e) {
            // want a - b >= w : longest path from b to a
            let mut dist: BTreeMap<Sym, i128> = BTreeMap::new();
            dist.insert(b, 0);
            for _ in 0..syms.len() + 2 {
                let mut ch = false;
                for (p, q, w) in &edges {
                    if let Some(d) = dist.get(q).copied() {
                        let nd = d + w;
                        if dist.get(p).map_or(true, |o| *o < nd) {
                            dist.insert(*p, nd);
                            ch = true;
                        }
                    }
                }
                if !ch {
                    break;
                }
            }
            if dist.get(&a).map_or(false, |d| *d >= w) {
                return true;
            }
        }
        self.sum(e, 2)
    }
    /// is `e` a sum of non-negative symbols and at most `depth` known constraints?
    fn sum(&self, e: &Lin, depth: u32) -> bool {
        if e.c >= 0 && e.t.values().all(|k| *k >= 0) {
            return true;
        }
        depth > 0
            && self.v.iter().any(|x| {
                // the constraint must supply one of the missing symbols
                e.t.iter().any(|(s, k)| *k < 0 && x.t.get(s).map_or(false, |j| *j < 0)) && self.sum(&e.sub(x), depth - 1)
            })
    }
    pub fn refuted(&self, e: &Lin) -> bool {
        self.implied(&e.neg().addk(-1))
    }
    pub fn push(&mut self, e: Lin) {
        if !self.implied(&e) {
            // drop what the new constraint subsumes
            self.v.retain(|x| !matches!(x.sub(&e).konst(), Some(c) if c >= 0));
            self.v.push(e);
        }
    }
    pub fn subst(&mut self, s: Sym, e: &Lin) {
        let old = std::mem::take(&mut self.v);
        for x in old {
            let y = x.subst(s, e);
            if y.konst().is_none() {
                self.push(y);
            }
        }
        // the symbol was non-negative
        if e.konst().is_none() {
            self.push(e.clone());
        }
    }
}
