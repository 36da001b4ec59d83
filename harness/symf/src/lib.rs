//! A field whose elements are polynomials: running the real, field-generic code over it turns every
//! claim about the code's results into a polynomial identity, which holds for all field values at once.
//!
//! * `Sym<P>` implements the field traits over normal-form Laurent polynomials with coefficients in P.
//! * Every comparison whose outcome depends on symbolic values forks the execution; all forks are
//!   explored, each under its path condition.
//! * Proof obligations (`Model::check_zero`, `check_adv`) are discharged by normalisation, then by
//!   ideal membership (Rabinowitsch / Buchberger) from the path condition and hypotheses.
//! * The same contract code runs over the concrete field: that is the replay of a counterexample and
//!   the native search.
pub mod curve;
pub mod ideal;
pub mod model;
pub mod module;
pub mod poly;

use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use poly::{Mono, Poly};
use std::sync::{LazyLock, Mutex};
use std::collections::{HashMap, HashSet};
use std::marker::PhantomData;
use std::sync::Arc as Rc;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub use curve::SymAff;
pub use module::{ModAff, ModProj};
pub use model::*;

pub trait Base: WithSmallOrderMulGroup<3> + FromUniformBytes<64> + Ord {
    fn with<R>(f: impl FnOnce(&mut Ctx<Self>) -> R) -> R;
    /// The b coefficient of the curve over this field.
    const CURVE_B: u64 = 5;
    const NAME: &'static str;
}

macro_rules! base {
    ($f:ty, $n:literal) => {
        impl Base for $f {
            fn with<R>(f: impl FnOnce(&mut Ctx<Self>) -> R) -> R {
                // one context for all threads: the code under contract may use a thread pool
                static C: LazyLock<Mutex<Ctx<$f>>> = LazyLock::new(|| Mutex::new(Ctx::new()));
                f(&mut C.lock().unwrap_or_else(|e| e.into_inner()))
            }
            const NAME: &'static str = $n;
        }
    };
}
base!(pasta_curves::Fp, "Fp");
base!(pasta_curves::Fq, "Fq");

/// Raised (by panic) when symbolic execution meets an operation it cannot represent.
pub struct Unsupported(pub String);
/// Raised (by panic) when concrete inputs miss a precondition.
pub struct Skip;

#[derive(Clone, Debug)]
pub struct Ob {
    pub label: String,
    pub status: Status,
    pub detail: String,
    /// For failed obligations: values for the inputs that refute it.
    pub cex: Option<Vec<(String, String)>>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Proved,
    Failed,
    Undecided,
}

pub struct Ctx<P: Base> {
    polys: Vec<Rc<Poly<P>>>,
    index: HashMap<Rc<Poly<P>>, u32>,
    pub names: Vec<String>,
    atoms: HashMap<u32, u32>,
    atom_def: HashMap<u32, Rc<Poly<P>>>,
    pub atom_limit: usize,
    /// to_repr of a non-constant is an uninterpreted function of its normal form (else it is out of reach)
    pub opaque_repr: bool,
    /// Some: zero tests fork only on these variables; a test on any other value takes the nonzero side
    /// (under the contract of the callee that a zero test there does not change what it computes)
    pub fork_only: Option<Vec<u32>>,
    rdef: HashMap<u32, Rc<Poly<P>>>,
    rmemo: HashMap<u32, u32>,
    rdone: usize,
    // path
    pub zero: Vec<Poly<P>>,
    pub nonzero: Vec<Poly<P>>,
    pub adv: Vec<Poly<P>>,
    pub adv_nonzero: Vec<Poly<P>>,
    pub decisions: Vec<bool>,
    pub pos: usize,
    pub obs: Vec<Ob>,
    pub fuel: i64,
    /// variables chosen by the harness (inputs and adversarial wires), for counterexamples
    pub inputs: Vec<u32>,
    // concrete mode
    pub rng: u64,
    pub forced: HashMap<String, P>,
    pub log: Vec<(String, P)>,
    pub counter: HashMap<String, u32>,
    pub violated: Option<String>,
}

const RESERVED: u32 = 8;

impl<P: Base> Ctx<P> {
    pub fn new() -> Self {
        let mut c = Ctx {
            polys: vec![],
            index: HashMap::new(),
            names: vec![],
            atoms: HashMap::new(),
            atom_def: HashMap::new(),
            atom_limit: 4096,
            opaque_repr: false,
            fork_only: None,
            rdef: HashMap::new(),
            rmemo: HashMap::new(),
            rdone: 0,
            zero: vec![],
            nonzero: vec![],
            adv: vec![],
            adv_nonzero: vec![],
            decisions: vec![],
            pos: 0,
            obs: vec![],
            fuel: 400_000,
            inputs: vec![],
            rng: 1,
            forced: HashMap::new(),
            log: vec![],
            counter: HashMap::new(),
            violated: None,
        };
        for k in [P::ZERO, P::ONE, P::TWO_INV, P::MULTIPLICATIVE_GENERATOR, P::ROOT_OF_UNITY, P::ROOT_OF_UNITY_INV, P::DELTA, P::ZETA] {
            let p = Rc::new(Poly::constant(k));
            let id = c.polys.len() as u32;
            c.polys.push(p.clone());
            assert!(c.index.insert(p, id).is_none(), "field constants are distinct");
        }
        c
    }
    pub fn intern(&mut self, p: Poly<P>) -> u32 {
        if let Some(i) = self.index.get(&p) {
            return *i;
        }
        let p = Rc::new(p);
        let id = self.polys.len() as u32;
        self.polys.push(p.clone());
        self.index.insert(p, id);
        id
    }
    pub fn get(&self, i: u32) -> Rc<Poly<P>> {
        self.polys[i as usize].clone()
    }
    pub fn fresh(&mut self, name: &str) -> u32 {
        self.names.push(name.to_string());
        (self.names.len() - 1) as u32
    }
    /// The atom standing for a polynomial: p = c * atom, with the leading coefficient in c.
    fn atom(&mut self, p: &Rc<Poly<P>>) -> (P, u32) {
        if let Some((m, c)) = p.as_mono() {
            if m.len() == 1 && m[0].1 == 1 {
                return (c, m[0].0);
            }
        }
        let c = p.0[0].1;
        let ci: Option<P> = c.invert().into();
        let q = p.scale(ci.unwrap());
        let id = self.intern(q);
        if let Some(v) = self.atoms.get(&id) {
            return (c, *v);
        }
        let v = self.fresh(&format!("atom{}", self.atoms.len()));
        self.atoms.insert(id, v);
        let q = self.get(id);
        self.atom_def.insert(v, q);
        (c, v)
    }
    fn mul(&mut self, a: u32, b: u32) -> u32 {
        let (p, q) = (self.get(a), self.get(b));
        if p.0.len() > 1 && q.0.len() > 1 && p.0.len() * q.0.len() > self.atom_limit {
            let (c, v) = self.atom(&p);
            let (d, w) = self.atom(&q);
            let r = Poly::var(v).mul(&Poly::var(w)).scale(c * d);
            return self.intern(r);
        }
        // x * (power of the atom of x): keep the atom instead of multiplying out
        for (one, many) in [(&p, &q), (&q, &p)] {
            if one.0.len() == 1 && many.0.len() > 1 && !self.atoms.is_empty() {
                if let Some((c, v)) = self.known_atom(many) {
                    if one.0[0].0.iter().any(|x| x.0 == v) {
                        let r = one.mul(&Poly::var(v)).scale(c);
                        return self.intern(r);
                    }
                }
            }
        }
        let r = p.mul(&q);
        self.intern(r)
    }
    fn known_atom(&mut self, p: &Rc<Poly<P>>) -> Option<(P, u32)> {
        let c = p.0[0].1;
        let ci: Option<P> = c.invert().into();
        let q = p.scale(ci.unwrap());
        let id = *self.index.get(&q)?;
        self.atoms.get(&id).map(|v| (c, *v))
    }
    /// Rewrites a polynomial over the adversary's wires by the definitions the constraints give them.
    pub fn resolve(&mut self, p: &Poly<P>) -> Option<u32> {
        if self.rdef.is_empty() {
            return Some(self.intern(p.clone()));
        }
        let mut acc = Poly(vec![]);
        for (m, c) in &p.0 {
            let mut t = self.intern(Poly::constant(*c));
            for (v, e) in m {
                let f = self.resolve_var(*v)?;
                let fp = self.get(f);
                let f = if *e < 0 {
                    let (mm, k) = fp.as_mono()?;
                    let ki: Option<P> = k.invert().into();
                    let r = Poly(vec![(mm.iter().map(|(a, b)| (*a, -b)).collect(), ki?)]);
                    self.intern(r)
                } else {
                    f
                };
                let n = e.unsigned_abs();
                if n > 4096 {
                    return None;
                }
                if fp.0.len() == 1 {
                    let r = self.get(f).pow(n);
                    let r = self.intern(r);
                    t = self.mul(t, r);
                } else {
                    let mut r = f;
                    for _ in 1..n {
                        r = self.mul(r, f);
                    }
                    t = self.mul(t, r);
                }
            }
            acc = acc.add(&self.get(t).clone(), P::ONE);
        }
        Some(self.intern(acc))
    }
    fn resolve_var(&mut self, v: u32) -> Option<u32> {
        if let Some(r) = self.rmemo.get(&v) {
            return Some(*r);
        }
        let r = if let Some(d) = self.rdef.get(&v).cloned() {
            self.resolve(&d)?
        } else if let Some(d) = self.atom_def.get(&v).cloned() {
            let r = self.resolve(&d)?;
            if *self.get(r) == *d { self.intern(Poly::var(v)) } else { r }
        } else {
            self.intern(Poly::var(v))
        };
        self.rmemo.insert(v, r);
        Some(r)
    }
    /// Turns the adversary's constraints, in the order they were emitted, into definitions of wires.
    pub fn forward(&mut self) {
        while self.rdone < self.adv.len() {
            let p = self.adv[self.rdone].clone();
            self.rdone += 1;
            if p.0.iter().any(|(m, _)| m.iter().any(|x| x.1 < 0 || self.atom_def.contains_key(&x.0))) {
                continue;
            }
            // substitute what is already defined, only to find a variable not yet defined
            let mut q = p.clone();
            let mut guard = 0;
            while let Some(v) = q.vars().into_iter().rev().find(|v| self.rdef.contains_key(v)) {
                guard += 1;
                let lin = q.0.iter().all(|(m, _)| !m.iter().any(|x| x.0 == v) || m.len() == 1 && m[0].1 == 1);
                if !lin || guard > 200 || q.0.len() > 400 {
                    break;
                }
                let Some(n) = q.subst(v, &self.rdef[&v].clone()) else { break };
                q = n;
            }
            let Some(top) = q.vars().into_iter().next_back() else { continue };
            if self.rdef.contains_key(&top) || q.vars().iter().any(|v| self.atom_def.contains_key(v)) {
                continue;
            }
            let occ: Vec<_> = q.0.iter().filter(|(m, _)| m.iter().any(|x| x.0 == top)).collect();
            if occ.len() != 1 || occ[0].0.len() != 1 || occ[0].0[0].1 != 1 {
                continue;
            }
            let ci: Option<P> = occ[0].1.invert().into();
            let rest = Poly(q.0.iter().filter(|(m, _)| !m.iter().any(|x| x.0 == top)).cloned().collect());
            let d = Rc::new(rest.scale(-ci.unwrap()));
            self.rdef.insert(top, d);
            self.rmemo.clear();
        }
    }
    /// Definitions of all atoms reachable from the given polynomials.
    fn defs(&self, from: &[&Poly<P>]) -> Vec<Poly<P>> {
        let mut todo: Vec<u32> = from.iter().flat_map(|p| p.vars()).collect();
        let mut seen = HashSet::new();
        let mut out = vec![];
        while let Some(v) = todo.pop() {
            if !seen.insert(v) {
                continue;
            }
            if let Some(d) = self.atom_def.get(&v) {
                todo.extend(d.vars());
                out.push(Poly::var(v).add(d, -P::ONE));
            }
        }
        out
    }
    pub fn show(&self, p: &Poly<P>) -> String {
        p.show(&|v| self.names.get(v as usize).cloned().unwrap_or(format!("v{v}")))
    }
    /// The polynomial with the variables that are zero on this path dropped.
    fn at_zeros(&self, p: &Poly<P>) -> Poly<P> {
        let zs: Vec<u32> = self.zero.iter().filter_map(|z| z.as_mono()).filter(|(m, _)| m.len() == 1 && m[0].1 == 1).map(|(m, _)| m[0].0).collect();
        if zs.is_empty() || p.0.iter().any(|(m, _)| m.iter().any(|(v, e)| *e < 0 && zs.contains(v))) {
            return p.clone();
        }
        Poly(p.0.iter().filter(|(m, _)| !m.iter().any(|(v, _)| zs.contains(v))).cloned().collect())
    }
    pub fn implied(&mut self, goal: &Poly<P>, adv: bool) -> ideal::Verdict {
        if goal.is_zero() || self.at_zeros(goal).is_zero() {
            return ideal::Verdict::Proved;
        }
        if adv {
            self.forward();
            if let Some(r) = self.resolve(goal) {
                if self.get(r).is_zero() {
                    return ideal::Verdict::Proved;
                }
            }
        }
        let mut hyps = self.zero.clone();
        let mut nz = self.nonzero.clone();
        if adv {
            hyps.extend(self.adv.iter().cloned());
            nz.extend(self.adv_nonzero.iter().cloned());
        }
        let mut all: Vec<&Poly<P>> = hyps.iter().collect();
        all.extend(nz.iter());
        all.push(goal);
        let d = self.defs(&all);
        hyps.extend(d);
        ideal::implies(&hyps, &nz, goal, self.names.len() as u32, self.fuel)
    }
    /// Is `p` zero? Decided if possible, else forks.
    pub fn decide_zero(&mut self, p: &Poly<P>) -> bool {
        if let Some(c) = p.as_const() {
            return c == P::ZERO;
        }
        // A monomial is zero exactly when the product of those of its variables is that may be zero
        // (a variable that occurs inverted, or is known nonzero, is not).
        let radical;
        let mut p = p;
        if let Some((m, _)) = p.as_mono() {
            let left: Mono = m.iter().filter(|(v, e)| *e > 0 && !self.nonzero.iter().any(|n| n.as_mono().is_some_and(|(k, _)| k.iter().any(|x| x.0 == *v)))).map(|(v, _)| (*v, 1)).collect();
            if left.is_empty() {
                return false;
            }
            radical = Poly(vec![(left, P::ONE)]);
            p = &radical;
        }
        if let Some(f) = &self.fork_only {
            let q = self.at_zeros(p);
            if q.is_zero() {
                return true;
            }
            if !q.as_mono().is_some_and(|(m, _)| m.iter().all(|(v, _)| f.contains(v))) {
                return false;
            }
        }
        if !self.zero.is_empty() || !self.nonzero.is_empty() {
            if let ideal::Verdict::Proved = self.implied(p, false) {
                return true;
            }
            self.zero.push(p.clone());
            let v = self.implied(&Poly::constant(P::ONE), false);
            self.zero.pop();
            if let ideal::Verdict::Proved = v {
                return false;
            }
        }
        let d = if self.pos < self.decisions.len() {
            self.decisions[self.pos]
        } else {
            self.decisions.push(false);
            false
        };
        self.pos += 1;
        if d { self.zero.push(p.clone()) } else { self.nonzero.push(p.clone()) }
        d
    }
    fn reset_path(&mut self) {
        self.zero.clear();
        self.nonzero.clear();
        self.adv.clear();
        self.adv_nonzero.clear();
        self.pos = 0;
        self.inputs.clear();
        self.counter.clear();
        // names, polys and atoms are kept only within one exploration; start afresh
        let limit = self.atom_limit;
        let (d, o, fuel) = (std::mem::take(&mut self.decisions), std::mem::take(&mut self.obs), self.fuel);
        let (rng, forced) = (self.rng, std::mem::take(&mut self.forced));
        *self = Ctx::new();
        self.atom_limit = limit;
        self.decisions = d;
        self.obs = o;
        self.fuel = fuel;
        self.rng = rng;
        self.forced = forced;
    }
    pub fn next_rand(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn rand_field(&mut self) -> P {
        let mut b = [0u8; 64];
        for k in b.chunks_mut(8) {
            k.copy_from_slice(&self.next_rand().to_le_bytes());
        }
        P::from_uniform_bytes(&b)
    }
    /// Looks for concrete values that satisfy the hypotheses and refute the goal.
    pub fn find_cex(&mut self, goal: &Poly<P>, adv: bool) -> Option<Vec<(String, P)>> {
        let mut hyps = self.zero.clone();
        let mut nz = self.nonzero.clone();
        if adv {
            hyps.extend(self.adv.iter().cloned());
            nz.extend(self.adv_nonzero.iter().cloned());
        }
        let mut all: Vec<&Poly<P>> = hyps.iter().collect();
        all.extend(nz.iter());
        all.push(goal);
        let d = self.defs(&all);
        hyps.extend(d);
        for h in hyps.iter().chain([goal]).cloned().collect::<Vec<_>>() {
            nz.extend(h.clear_denominators().1.into_iter().map(Poly::var));
        }
        let (subs, rest) = ideal::eliminate(&hyps, &|_| false);
        for attempt in 0..400 {
            let mut val: HashMap<u32, P> = HashMap::new();
            let mut rest = rest.clone();
            let mut ok = true;
            // specialise variables of the remaining hypotheses one at a time, solving univariate ones
            let mut guard = 0;
            while !rest.is_empty() && ok {
                guard += 1;
                if guard > 200 {
                    ok = false;
                    break;
                }
                let mut assign: Option<(u32, P)> = None;
                for h in &rest {
                    let vs = h.vars();
                    if vs.is_empty() {
                        ok = false;
                        break;
                    }
                    if vs.len() == 1 {
                        match roots(h, vs[0], self.next_rand()) {
                            Some(r) => assign = Some((vs[0], r)),
                            None => ok = false,
                        }
                        break;
                    }
                }
                if !ok {
                    break;
                }
                let (v, x) = assign.unwrap_or_else(|| {
                    let vs = rest[0].vars();
                    let v = vs[(self.next_rand() as usize) % vs.len()];
                    let x = self.pick(attempt);
                    (v, x)
                });
                val.insert(v, x);
                rest = rest.iter().map(|h| h.subst(v, &Poly::constant(x)).unwrap()).filter(|h| !h.is_zero()).collect();
            }
            if !ok {
                continue;
            }
            for v in 0..self.names.len() as u32 {
                if !val.contains_key(&v) && !subs.iter().any(|s| s.0 == v) {
                    let x = self.pick(attempt);
                    val.insert(v, x);
                }
            }
            for (v, d) in subs.iter().rev() {
                let x = d.eval(&|w| *val.get(&w).unwrap_or(&P::ZERO));
                val.insert(*v, x.unwrap_or(P::ZERO));
            }
            let get = |w: u32| *val.get(&w).unwrap_or(&P::ZERO);
            if hyps.iter().all(|h| h.eval(&get) == Some(P::ZERO))
                && nz.iter().all(|h| h.eval(&get).is_some_and(|x| x != P::ZERO))
                && goal.eval(&get).is_some_and(|x| x != P::ZERO)
            {
                return Some(self.inputs.iter().map(|v| (self.names[*v as usize].clone(), get(*v))).collect());
            }
        }
        None
    }
    fn pick(&mut self, attempt: u64) -> P {
        match if attempt % 3 == 2 { 9 } else { self.next_rand() % 8 } {
            0 => P::ZERO,
            1 => P::ONE,
            2 => -P::ONE,
            3 => P::from(2),
            4 => P::from(self.next_rand() % 64),
            _ => self.rand_field(),
        }
    }
}

/// A root of a univariate polynomial of degree 1 or 2.
fn roots<P: Base>(h: &Poly<P>, v: u32, r: u64) -> Option<P> {
    let mut c = [P::ZERO; 3];
    for (m, k) in &h.0 {
        let e = m.iter().find(|x| x.0 == v).map_or(0, |x| x.1);
        if !(0..=2).contains(&e) {
            return None;
        }
        c[e as usize] += *k;
    }
    if c[2] == P::ZERO {
        let i: Option<P> = c[1].invert().into();
        return i.map(|i| -c[0] * i);
    }
    let d = c[1].square() - P::from(4) * c[2] * c[0];
    let s: Option<P> = d.sqrt().into();
    let s = s?;
    let s = if r & 1 == 1 { -s } else { s };
    let i: Option<P> = c[2].double().invert().into();
    Some((s - c[1]) * i?)
}

/// A symbolic field element: a handle to an interned polynomial.
pub struct Sym<P: Base>(pub u32, PhantomData<P>);
impl<P: Base> Clone for Sym<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P: Base> Copy for Sym<P> {}
unsafe impl<P: Base> Send for Sym<P> {}
unsafe impl<P: Base> Sync for Sym<P> {}

impl<P: Base> Sym<P> {
    const fn id(i: u32) -> Self {
        Sym(i, PhantomData)
    }
    pub fn lit(c: P) -> Self {
        P::with(|x| Sym::id(x.intern(Poly::constant(c))))
    }
    pub fn poly(self) -> Rc<Poly<P>> {
        P::with(|x| x.get(self.0))
    }
    pub fn of(p: Poly<P>) -> Self {
        P::with(|x| Sym::id(x.intern(p)))
    }
    pub fn constant(self) -> Option<P> {
        self.poly().as_const()
    }
    fn need(self, what: &str) -> P {
        match self.constant() {
            Some(c) => c,
            None => std::panic::panic_any(Unsupported(format!("{what} of a symbolic field element"))),
        }
    }
}
impl<P: Base> std::fmt::Debug for Sym<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let p = self.poly();
        let s = P::with(|x| x.show(&p));
        write!(f, "{s}")
    }
}
impl<P: Base> Default for Sym<P> {
    fn default() -> Self {
        Self::id(0)
    }
}
impl<P: Base> PartialEq for Sym<P> {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        P::with(|x| {
            let d = x.get(self.0).add(&x.get(o.0), -P::ONE);
            x.decide_zero(&d)
        })
    }
}
impl<P: Base> Eq for Sym<P> {}
impl<P: Base> PartialOrd for Sym<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: Base> Ord for Sym<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.need("order").cmp(&o.need("order"))
    }
}
impl<P: Base> ConstantTimeEq for Sym<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl<P: Base> ConditionallySelectable for Sym<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
fn add<P: Base>(a: Sym<P>, b: Sym<P>, k: P) -> Sym<P> {
    P::with(|x| {
        let r = x.get(a.0).add(&x.get(b.0), k);
        Sym::id(x.intern(r))
    })
}
fn mul<P: Base>(a: Sym<P>, b: Sym<P>) -> Sym<P> {
    P::with(|x| Sym::id(x.mul(a.0, b.0)))
}
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident $e:expr;)*) => { $(
    impl<P: Base> std::ops::$t for Sym<P> { type Output = Self; fn $f(self, o: Self) -> Self { ($e)(self, o) } }
    impl<'a, P: Base> std::ops::$t<&'a Sym<P>> for Sym<P> { type Output = Self; fn $f(self, o: &'a Self) -> Self { ($e)(self, *o) } }
    impl<'a, P: Base> std::ops::$t<Sym<P>> for &'a Sym<P> { type Output = Sym<P>; fn $f(self, o: Sym<P>) -> Sym<P> { ($e)(*self, o) } }
    impl<'a, 'b, P: Base> std::ops::$t<&'b Sym<P>> for &'a Sym<P> { type Output = Sym<P>; fn $f(self, o: &'b Sym<P>) -> Sym<P> { ($e)(*self, *o) } }
    impl<P: Base> std::ops::$ta for Sym<P> { fn $fa(&mut self, o: Self) { *self = ($e)(*self, o) } }
    impl<'a, P: Base> std::ops::$ta<&'a Sym<P>> for Sym<P> { fn $fa(&mut self, o: &'a Self) { *self = ($e)(*self, *o) } }
)* } }
ops! {
    Add add AddAssign add_assign |a, b| add(a, b, P::ONE);
    Sub sub SubAssign sub_assign |a, b| add(a, b, -P::ONE);
    Mul mul MulAssign mul_assign |a, b| mul(a, b);
}
impl<P: Base> std::ops::Neg for Sym<P> {
    type Output = Self;
    fn neg(self) -> Self {
        add(Self::id(0), self, -P::ONE)
    }
}
impl<'a, P: Base> std::ops::Neg for &'a Sym<P> {
    type Output = Sym<P>;
    fn neg(self) -> Sym<P> {
        -*self
    }
}
impl<P: Base, T: std::borrow::Borrow<Sym<P>>> std::iter::Sum<T> for Sym<P> {
    fn sum<I: Iterator<Item = T>>(i: I) -> Self {
        i.fold(Self::ZERO, |a, b| a + *b.borrow())
    }
}
impl<P: Base, T: std::borrow::Borrow<Sym<P>>> std::iter::Product<T> for Sym<P> {
    fn product<I: Iterator<Item = T>>(i: I) -> Self {
        i.fold(Self::ONE, |a, b| a * *b.borrow())
    }
}
impl<P: Base> From<u64> for Sym<P> {
    fn from(v: u64) -> Self {
        Sym::lit(P::from(v))
    }
}
impl<P: Base> From<bool> for Sym<P> {
    fn from(v: bool) -> Self {
        if v { Self::ONE } else { Self::ZERO }
    }
}
impl<P: Base> Field for Sym<P> {
    const ZERO: Self = Self::id(0);
    const ONE: Self = Self::id(1);
    fn random<R: rand_core::Rng + ?Sized>(_: &mut R) -> Self {
        <Self as Model>::input("random")
    }
    fn square(&self) -> Self {
        mul(*self, *self)
    }
    fn double(&self) -> Self {
        add(*self, *self, P::ONE)
    }
    fn invert(&self) -> CtOption<Self> {
        let p = self.poly();
        if P::with(|x| x.decide_zero(&p)) {
            return CtOption::new(Self::ZERO, Choice::from(0));
        }
        let r = if let Some((m, c)) = p.as_mono() {
            let ci: Option<P> = c.invert().into();
            Poly(vec![(m.iter().map(|(v, e)| (*v, -e)).collect(), ci.unwrap())])
        } else {
            P::with(|x| {
                let (c, v) = x.atom(&p);
                let ci: Option<P> = c.invert().into();
                x.nonzero.push(Poly::var(v));
                Poly(vec![(vec![(v, -1)], ci.unwrap())])
            })
        };
        CtOption::new(Self::of(r), Choice::from(1))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        let (n, d) = (num.need("sqrt_ratio"), div.need("sqrt_ratio"));
        let (c, r) = P::sqrt_ratio(&n, &d);
        (c, Sym::lit(r))
    }
    /// Forks on whether the value is a square; the root is a fresh variable r with r^2 = value
    /// (or r^2 = generator * value in the non-square case, where no root is returned).
    fn sqrt(&self) -> CtOption<Self> {
        if let Some(c) = self.constant() {
            let r = c.sqrt();
            return CtOption::new(Sym::lit(r.unwrap_or(P::ZERO)), r.is_some());
        }
        let p = self.poly();
        let (r, square) = P::with(|x| {
            let v = x.fresh("sqrt");
            let d = if x.pos < x.decisions.len() { x.decisions[x.pos] } else { x.decisions.push(false); false };
            x.pos += 1;
            let sq = Poly::var(v).mul(&Poly::var(v));
            if !d {
                x.zero.push(sq.add(&p, -P::ONE));
            } else {
                x.zero.push(sq.add(&p, -P::ROOT_OF_UNITY));
                x.nonzero.push((*p).clone());
            }
            (Poly::var(v), !d)
        });
        CtOption::new(Self::of(r), Choice::from(square as u8))
    }
}
impl<P: Base> PrimeField for Sym<P> {
    type Repr = P::Repr;
    fn from_repr(r: P::Repr) -> CtOption<Self> {
        let x = P::from_repr(r);
        CtOption::new(Sym::lit(x.unwrap_or(P::ZERO)), x.is_some())
    }
    fn to_repr(&self) -> P::Repr {
        if self.constant().is_none() && P::with(|x| x.opaque_repr) {
            let mut z = (self.0 as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
            let mut b = [0u8; 64];
            for c in b.chunks_mut(8) {
                z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9).wrapping_add(0x94D049BB133111EB);
                c.copy_from_slice(&z.to_le_bytes());
            }
            return P::from_uniform_bytes(&b).to_repr();
        }
        self.need("to_repr").to_repr()
    }
    fn is_odd(&self) -> Choice {
        self.need("is_odd").is_odd()
    }
    const MODULUS: &'static str = P::MODULUS;
    const NUM_BITS: u32 = P::NUM_BITS;
    const CAPACITY: u32 = P::CAPACITY;
    const TWO_INV: Self = Self::id(2);
    const MULTIPLICATIVE_GENERATOR: Self = Self::id(3);
    const S: u32 = P::S;
    const ROOT_OF_UNITY: Self = Self::id(4);
    const ROOT_OF_UNITY_INV: Self = Self::id(5);
    const DELTA: Self = Self::id(6);
}
impl<P: Base> WithSmallOrderMulGroup<3> for Sym<P> {
    const ZETA: Self = Self::id(7);
}
impl<P: Base> FromUniformBytes<64> for Sym<P> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        Sym::lit(P::from_uniform_bytes(b))
    }
}
const _: u32 = RESERVED;
