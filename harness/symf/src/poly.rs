//! Multivariate Laurent polynomials over a prime field, in normal form.
use crate::Base;
use std::collections::BTreeMap;
use std::collections::HashMap;

/// A monomial: (variable, exponent) pairs, sorted by variable, exponents nonzero.
pub type Mono = Vec<(u32, i64)>;

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Poly<P: Base>(pub Vec<(Mono, P)>);

impl<P: Base> core::hash::Hash for Poly<P> {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        for (m, c) in &self.0 {
            m.hash(h);
            h.write(c.to_repr().as_ref());
        }
    }
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::with_capacity(a.len() + b.len());
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1.checked_add(b[j].1).expect("exponent overflow");
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    r
}

impl<P: Base> Poly<P> {
    pub fn constant(c: P) -> Self {
        if c == P::ZERO { Poly(vec![]) } else { Poly(vec![(vec![], c)]) }
    }
    pub fn var(v: u32) -> Self {
        Poly(vec![(vec![(v, 1)], P::ONE)])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<P> {
        match self.0.as_slice() {
            [] => Some(P::ZERO),
            [(m, c)] if m.is_empty() => Some(*c),
            _ => None,
        }
    }
    pub fn as_mono(&self) -> Option<(&Mono, P)> {
        match self.0.as_slice() {
            [(m, c)] => Some((m, *c)),
            _ => None,
        }
    }
    pub fn from_map(m: BTreeMap<Mono, P>) -> Self {
        Poly(m.into_iter().filter(|(_, c)| *c != P::ZERO).collect())
    }
    pub fn add(&self, o: &Self, k: P) -> Self {
        // self + k*o, merging two sorted lists
        let (a, b) = (&self.0, &o.0);
        let (mut i, mut j) = (0, 0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i].clone());
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                let c = b[j].1 * k;
                if c != P::ZERO {
                    r.push((b[j].0.clone(), c));
                }
                j += 1;
            } else {
                let c = a[i].1 + b[j].1 * k;
                if c != P::ZERO {
                    r.push((a[i].0.clone(), c));
                }
                i += 1;
                j += 1;
            }
        }
        Poly(r)
    }
    pub fn scale(&self, k: P) -> Self {
        if k == P::ZERO {
            return Poly(vec![]);
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), *c * k)).collect())
    }
    pub fn mul(&self, o: &Self) -> Self {
        if let Some(c) = self.as_const() {
            return o.scale(c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(c);
        }
        let mut h: HashMap<Mono, P> = HashMap::with_capacity(self.0.len() * o.0.len());
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                *h.entry(mono_mul(m, n)).or_insert(P::ZERO) += *c * d;
            }
        }
        let mut v: Vec<_> = h.into_iter().filter(|(_, c)| *c != P::ZERO).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Poly(v)
    }
    pub fn pow(&self, mut e: u64) -> Self {
        let mut b = self.clone();
        let mut r = Poly::constant(P::ONE);
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn vars(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.0.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Multiplies out negative exponents; returns the polynomial and the variables inverted.
    pub fn clear_denominators(&self) -> (Self, Vec<u32>) {
        let mut low: BTreeMap<u32, i64> = BTreeMap::new();
        for (m, _) in &self.0 {
            for (v, e) in m {
                if *e < 0 {
                    let x = low.entry(*v).or_insert(0);
                    *x = (*x).min(*e);
                }
            }
        }
        let f: Mono = low.iter().map(|(v, e)| (*v, -*e)).collect();
        let mut t: Vec<_> = self.0.iter().map(|(m, c)| (mono_mul(m, &f), *c)).collect();
        t.sort_by(|a, b| a.0.cmp(&b.0));
        (Poly(t), low.keys().copied().collect())
    }
    /// Replaces variable `v` by `p` (v must occur with nonnegative exponents only, unless p is a monomial).
    pub fn subst(&self, v: u32, p: &Poly<P>) -> Option<Self> {
        if !self.0.iter().any(|(m, _)| m.iter().any(|x| x.0 == v)) {
            return Some(self.clone());
        }
        let mut acc = Poly(vec![]);
        let mut pows: HashMap<i64, Poly<P>> = HashMap::new();
        for (m, c) in &self.0 {
            let e = m.iter().find(|x| x.0 == v).map_or(0, |x| x.1);
            let rest: Mono = m.iter().copied().filter(|x| x.0 != v).collect();
            let t = Poly(vec![(rest, *c)]);
            if e == 0 {
                acc = acc.add(&t, P::ONE);
                continue;
            }
            let pe = if e > 0 {
                pows.entry(e).or_insert_with(|| p.pow(e as u64)).clone()
            } else {
                let (pm, pc) = p.as_mono()?;
                let inv: Option<P> = pc.invert().into();
                Poly(vec![(pm.iter().map(|(a, b)| (*a, -b)).collect(), inv?)]).pow((-e) as u64)
            };
            acc = acc.add(&t.mul(&pe), P::ONE);
        }
        Some(acc)
    }
    pub fn eval(&self, f: &dyn Fn(u32) -> P) -> Option<P> {
        let mut acc = P::ZERO;
        for (m, c) in &self.0 {
            let mut t = *c;
            for (v, e) in m {
                let mut x = f(*v);
                if *e < 0 {
                    x = Option::from(x.invert())?;
                }
                t *= x.pow_vartime([e.unsigned_abs()]);
            }
            acc += t;
        }
        Some(acc)
    }
    pub fn show_full(&self, name: &dyn Fn(u32) -> String) -> String {
        let mut t: Vec<String> = self
            .0
            .iter()
            .map(|(m, c)| format!("{}{}", show_field(c), m.iter().map(|(v, e)| format!("*{}^{e}", name(*v))).collect::<String>()))
            .collect();
        t.sort();
        t.join(" + ")
    }
    pub fn show(&self, name: &dyn Fn(u32) -> String) -> String {
        if self.0.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, c)) in self.0.iter().take(6).enumerate() {
            if i > 0 {
                s += " + ";
            }
            s += &show_field(c);
            for (v, e) in m {
                s += &format!("*{}", name(*v));
                if *e != 1 {
                    s += &format!("^{e}");
                }
            }
        }
        if self.0.len() > 6 {
            s += &format!(" + ... ({} terms)", self.0.len());
        }
        s
    }
}

pub fn show_field<P: Base>(c: &P) -> String {
    let h = |x: &P| {
        let r = x.to_repr();
        let mut s: String = r.as_ref().iter().rev().map(|b| format!("{b:02x}")).collect();
        while s.len() > 1 && s.starts_with('0') {
            s.remove(0);
        }
        s
    };
    let a = h(c);
    let b = h(&-*c);
    if b.len() < a.len() { format!("-0x{b}") } else { format!("0x{a}") }
}
