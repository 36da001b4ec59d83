//! Ideal membership by linear elimination followed by a bounded Buchberger run.
use crate::Base;
use crate::poly::{Mono, Poly, mono_mul};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

fn deg(m: &Mono) -> i64 {
    m.iter().map(|x| x.1).sum()
}
/// graded reverse-lexicographic-like total order (graded, ties by sparse lexicographic order)
fn cmp(a: &Mono, b: &Mono) -> Ordering {
    deg(a).cmp(&deg(b)).then_with(|| {
        // compare exponents from the highest variable: smaller exponent there is larger (grevlex)
        let (mut i, mut j) = (a.len(), b.len());
        while i > 0 || j > 0 {
            let av = if i > 0 { a[i - 1].0 as i64 } else { -1 };
            let bv = if j > 0 { b[j - 1].0 as i64 } else { -1 };
            if av != bv {
                return if av > bv { Ordering::Less } else { Ordering::Greater };
            }
            let (ae, be) = (a[i - 1].1, b[j - 1].1);
            if ae != be {
                return be.cmp(&ae);
            }
            i -= 1;
            j -= 1;
        }
        Ordering::Equal
    })
}
fn lead<P: Base>(p: &Poly<P>) -> (Mono, P) {
    let x = p.0.iter().max_by(|a, b| cmp(&a.0, &b.0)).unwrap();
    (x.0.clone(), x.1)
}
fn divides(a: &Mono, b: &Mono) -> Option<Mono> {
    let inv: Mono = a.iter().map(|x| (x.0, -x.1)).collect();
    let q = mono_mul(&inv, b);
    if q.iter().all(|x| x.1 > 0) { Some(q) } else { None }
}
fn lcm(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<u32, i64> = a.iter().copied().collect();
    for (v, e) in b {
        let x = m.entry(*v).or_insert(0);
        *x = (*x).max(*e);
    }
    m.into_iter().collect()
}
fn monic<P: Base>(p: Poly<P>) -> Poly<P> {
    let (_, c) = lead(&p);
    let i: Option<P> = c.invert().into();
    p.scale(i.unwrap())
}

pub fn reduce<P: Base>(p: &Poly<P>, basis: &[(Mono, Poly<P>)], fuel: &mut i64) -> Poly<P> {
    let mut p = p.clone();
    let mut rest: Vec<(Mono, P)> = vec![];
    while !p.is_zero() {
        if *fuel <= 0 {
            break;
        }
        let (m, c) = lead(&p);
        let mut hit = false;
        for (lm, g) in basis {
            if let Some(q) = divides(lm, &m) {
                *fuel -= g.0.len() as i64;
                let t = Poly(vec![(q, c)]).mul(g);
                p = p.add(&t, -P::ONE);
                hit = true;
                break;
            }
        }
        if !hit {
            p = p.add(&Poly(vec![(m.clone(), c)]), -P::ONE);
            rest.push((m, c));
        }
    }
    rest.sort_by(|a, b| a.0.cmp(&b.0));
    let mut r = Poly(rest);
    if !p.is_zero() {
        r = r.add(&p, P::ONE);
    }
    r
}

/// Whether 1 lies in the ideal (so the system has no solution). `None`: ran out of fuel.
pub fn inconsistent<P: Base>(gens: &[Poly<P>], fuel: &mut i64) -> Option<bool> {
    let mut basis: Vec<(Mono, Poly<P>)> = vec![];
    let mut pairs: BTreeSet<(i64, usize, usize)> = BTreeSet::new();
    let push = |basis: &mut Vec<(Mono, Poly<P>)>, pairs: &mut BTreeSet<(i64, usize, usize)>, p: Poly<P>| -> bool {
        let p = monic(p);
        let (m, _) = lead(&p);
        if m.is_empty() {
            return true;
        }
        let k = basis.len();
        for (i, (lm, _)) in basis.iter().enumerate() {
            let l = lcm(lm, &m);
            if l != mono_mul(lm, &m) {
                pairs.insert((deg(&l), i, k));
            }
        }
        basis.push((m, p));
        false
    };
    let mut gens: Vec<_> = gens.iter().filter(|g| !g.is_zero()).cloned().collect();
    gens.sort_by_key(|g| g.0.iter().map(|t| deg(&t.0)).max());
    for g in gens {
        let r = reduce(&g, &basis, fuel);
        if *fuel <= 0 {
            return None;
        }
        if !r.is_zero() && push(&mut basis, &mut pairs, r) {
            return Some(true);
        }
    }
    while let Some((d, i, j)) = pairs.pop_first() {
        let _ = d;
        let l = lcm(&basis[i].0, &basis[j].0);
        let qi = divides(&basis[i].0, &l).unwrap();
        let qj = divides(&basis[j].0, &l).unwrap();
        let s = Poly(vec![(qi, P::ONE)]).mul(&basis[i].1).add(&Poly(vec![(qj, P::ONE)]).mul(&basis[j].1), -P::ONE);
        let r = reduce(&s, &basis, fuel);
        if *fuel <= 0 {
            return None;
        }
        if !r.is_zero() && push(&mut basis, &mut pairs, r) {
            return Some(true);
        }
    }
    Some(false)
}

/// Eliminates variables that some hypothesis defines linearly (coefficient a field constant).
/// Returns the substitutions, in order of application, and the remaining hypotheses.
pub fn eliminate<P: Base>(hyps: &[Poly<P>], keep: &dyn Fn(u32) -> bool) -> (Vec<(u32, Poly<P>)>, Vec<Poly<P>>) {
    let mut hyps: Vec<Poly<P>> = hyps.iter().map(|h| h.clear_denominators().0).filter(|h| !h.is_zero()).collect();
    let mut subs = vec![];
    loop {
        let mut pick = None;
        'o: for (k, h) in hyps.iter().enumerate() {
            // a variable that occurs only in one linear monomial of h
            let mut count: BTreeMap<u32, (usize, bool)> = BTreeMap::new();
            for (m, _) in &h.0 {
                for (v, e) in m {
                    let x = count.entry(*v).or_insert((0, false));
                    x.0 += 1;
                    if m.len() == 1 && *e == 1 {
                        x.1 = true;
                    }
                }
            }
            for (v, (n, lin)) in count.iter().rev() {
                if *n == 1 && *lin && !keep(*v) {
                    pick = Some((k, *v));
                    break 'o;
                }
            }
        }
        let Some((k, v)) = pick else { break };
        let h = hyps.remove(k);
        let (_, c) = h.0.iter().find(|(m, _)| m.len() == 1 && m[0] == (v, 1)).unwrap().clone();
        let rest = Poly(h.0.iter().filter(|(m, _)| !(m.len() == 1 && m[0] == (v, 1))).cloned().collect());
        let ci: Option<P> = c.invert().into();
        let def = rest.scale(-ci.unwrap());
        hyps = hyps.iter().map(|x| x.subst(v, &def).unwrap()).filter(|x| !x.is_zero()).collect();
        subs.push((v, def));
        if hyps.iter().any(|h| h.0.len() > 4000) {
            break;
        }
    }
    (subs, hyps)
}

pub enum Verdict {
    Proved,
    /// the goal is not a consequence over the algebraic closure (a solution refuting it exists there)
    Refuted,
    Fuel,
}

/// Splits p = c*v + r when p is linear in v.
fn linear_in<P: Base>(p: &Poly<P>, v: u32) -> Option<(Poly<P>, Poly<P>)> {
    let (mut c, mut r) = (vec![], vec![]);
    for (m, k) in &p.0 {
        match m.iter().find(|x| x.0 == v) {
            None => r.push((m.clone(), *k)),
            Some((_, 1)) => c.push((m.iter().filter(|x| x.0 != v).copied().collect::<Mono>(), *k)),
            Some(_) => return None,
        }
    }
    c.sort_by(|a, b| a.0.cmp(&b.0));
    Some((Poly(c), Poly(r)))
}
/// p with v replaced by n/d, times the power of d that clears it (d is known to be nonzero).
fn subst_frac<P: Base>(p: &Poly<P>, v: u32, n: &Poly<P>, d: &Poly<P>) -> Poly<P> {
    let k = p.0.iter().filter_map(|(m, _)| m.iter().find(|x| x.0 == v).map(|x| x.1)).max().unwrap_or(0);
    if k == 0 {
        return p.clone();
    }
    let mut parts: Vec<Vec<(Mono, P)>> = vec![vec![]; k as usize + 1];
    for (m, c) in &p.0 {
        let e = m.iter().find(|x| x.0 == v).map_or(0, |x| x.1) as usize;
        parts[e].push((m.iter().filter(|x| x.0 != v).copied().collect(), *c));
    }
    // Horner: sum_e parts[e] n^e d^(k-e)
    let mut acc = Poly(vec![]);
    let mut dp = Poly::constant(P::ONE);
    for (i, mut t) in parts.into_iter().rev().enumerate() {
        t.sort_by(|a, b| a.0.cmp(&b.0));
        if i > 0 {
            acc = acc.mul(n);
            dp = dp.mul(d);
        }
        acc = acc.add(&Poly(t).mul(&dp), P::ONE);
    }
    acc
}
fn known_nonzero<P: Base>(c: &Poly<P>, nz: &[Poly<P>]) -> bool {
    if c.as_const().is_some() {
        return !c.is_zero();
    }
    if let Some((m, _)) = c.as_mono() {
        return m.iter().all(|(v, _)| nz.iter().any(|n| n.as_mono().is_some_and(|(k, _)| k.iter().any(|x| x.0 == *v))));
    }
    let c = monic(c.clone());
    nz.iter().any(|n| *n == c)
}

/// Eliminates variables that occur linearly with a coefficient known to be nonzero. Every step is an
/// equivalence, so the verdict on the transformed problem is the verdict on the original.
fn pseudo_eliminate<P: Base>(hyps: &mut Vec<Poly<P>>, nz: &mut Vec<Poly<P>>, goal: &mut Poly<P>) {
    for _ in 0..4000 {
        if goal.is_zero() {
            return;
        }
        // h = A*m + const: the monomial m (and A) cannot vanish
        for h in hyps.iter() {
            if h.0.iter().any(|(m, _)| m.is_empty()) {
                let rest: Vec<_> = h.0.iter().filter(|(m, _)| !m.is_empty()).cloned().collect();
                if rest.is_empty() {
                    continue;
                }
                for (v, _) in rest[0].0.clone() {
                    if rest.iter().all(|(m, _)| m.iter().any(|x| x.0 == v)) {
                        if !known_nonzero(&Poly::var(v), nz) {
                            nz.push(Poly::var(v));
                        }
                        let q: Poly<P> = Poly(rest.clone()).mul(&Poly(vec![(vec![(v, -1)], P::ONE)]));
                        if q.as_const().is_none() && !known_nonzero(&q, nz) {
                            nz.push(monic(q));
                        }
                    }
                }
            }
        }
        let mut best: Option<(usize, usize, u32, Poly<P>, Poly<P>)> = None;
        for (k, h) in hyps.iter().enumerate() {
            for v in h.vars().into_iter().rev() {
                let Some((c, r)) = linear_in(h, v) else { continue };
                if !known_nonzero(&c, nz) {
                    continue;
                }
                let cost = h.0.len() + if c.as_const().is_some() { 0 } else { 1000 * c.0.len() } + if known_nonzero(&Poly::var(v), nz) { 500 } else { 0 };
                if best.as_ref().is_none_or(|b| cost < b.0) {
                    best = Some((cost, k, v, c, r));
                }
            }
        }
        let Some((_, k, v, c, r)) = best else { return };
        let saved = (hyps.clone(), nz.clone(), goal.clone());
        hyps.remove(k);
        let n = r.scale(-P::ONE);
        *goal = subst_frac(goal, v, &n, &c);
        *hyps = hyps.iter().map(|x| subst_frac(x, v, &n, &c)).filter(|x| !x.is_zero()).collect();
        let mut nn: Vec<Poly<P>> = vec![];
        for x in nz.iter() {
            let y = subst_frac(x, v, &n, &c);
            if y.is_zero() {
                // contradictory hypotheses: everything follows
                *goal = Poly(vec![]);
                return;
            }
            let y = monic(y);
            if y.as_const().is_none() && !nn.contains(&y) {
                nn.push(y);
            }
        }
        if c.as_const().is_none() {
            let c = monic(c);
            if !nn.contains(&c) {
                nn.push(c);
            }
        }
        *nz = nn;
        if goal.0.len() > 60_000 || hyps.iter().any(|h| h.0.len() > 6000) {
            (*hyps, *nz, *goal) = saved;
            return;
        }
    }
}

/// Does goal = 0 follow from hyps = 0 and nonzero != 0 (over any extension field)?
pub fn implies<P: Base>(hyps: &[Poly<P>], nonzero: &[Poly<P>], goal: &Poly<P>, fresh: u32, fuel: i64) -> Verdict {
    // first only with the hypotheses near the goal, then with all of them
    if hyps.len() > 12 {
        let vars: BTreeSet<u32> = goal.vars().into_iter().collect();
        let mut vars = vars;
        let mut last = 0;
        for _ in 0..4 {
            let near: Vec<Poly<P>> = hyps.iter().filter(|h| h.vars().iter().any(|v| vars.contains(v))).cloned().collect();
            if near.len() == hyps.len() {
                break;
            }
            if near.len() > last {
                last = near.len();
                let nz: Vec<Poly<P>> = nonzero.iter().filter(|h| h.vars().iter().any(|v| vars.contains(v))).cloned().collect();
                if let Verdict::Proved = implies_all(&near, &nz, goal, fresh, fuel / 20) {
                    return Verdict::Proved;
                }
            }
            vars.extend(near.iter().flat_map(|h| h.vars()));
        }
    }
    implies_all(hyps, nonzero, goal, fresh, fuel)
}

fn implies_all<P: Base>(hyps: &[Poly<P>], nonzero: &[Poly<P>], goal: &Poly<P>, fresh: u32, fuel: i64) -> Verdict {
    // variables occurring inverted are nonzero by construction
    let mut nz: Vec<Poly<P>> = vec![];
    let mut push = |p: Poly<P>| {
        if !p.is_zero() && p.as_const().is_none() {
            let p = monic(p);
            if !nz.contains(&p) {
                nz.push(p);
            }
        }
    };
    let mut gens: Vec<Poly<P>> = vec![];
    for h in hyps {
        let (q, d) = h.clear_denominators();
        d.into_iter().for_each(|v| push(Poly::var(v)));
        if !q.is_zero() {
            gens.push(q);
        }
    }
    let (mut g, d) = goal.clear_denominators();
    d.into_iter().for_each(|v| push(Poly::var(v)));
    for n in nonzero {
        let (q, d) = n.clear_denominators();
        d.into_iter().for_each(|v| push(Poly::var(v)));
        if q.is_zero() {
            return Verdict::Proved;
        }
        push(q);
    }
    pseudo_eliminate(&mut gens, &mut nz, &mut g);
    if g.is_zero() {
        return Verdict::Proved;
    }
    let mut fuel = fuel;
    // cheap: reduction by the remaining hypotheses as they stand
    let b: Vec<_> = gens.iter().map(|h| { let h = monic(h.clone()); (lead(&h).0, h) }).collect();
    if reduce(&g, &b, &mut fuel).is_zero() {
        return Verdict::Proved;
    }
    // Rabinowitsch: 1 in <gens, 1 - t*g, 1 - s_i*n_i>
    let mut f = fresh;
    let mut inv = |p: &Poly<P>, gens: &mut Vec<Poly<P>>| {
        let t = Poly::<P>::var(f);
        f += 1;
        gens.push(t.mul(p).add(&Poly::constant(P::ONE), -P::ONE));
    };
    if g.as_const().is_none() {
        inv(&g, &mut gens);
    }
    for n in &nz {
        inv(n, &mut gens);
    }
    match inconsistent(&gens, &mut fuel) {
        Some(true) => Verdict::Proved,
        Some(false) => Verdict::Refuted,
        None => Verdict::Fuel,
    }
}
