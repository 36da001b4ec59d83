//! Contracts are written once, over `Model`, and run symbolically (proof) and concretely (replay).
use crate::poly::{Poly, show_field};
use crate::{Base, Ctx, Ob, Skip, Status, Sym, Unsupported, ideal};
use ff::{Field, FromUniformBytes, WithSmallOrderMulGroup};
use std::panic;

pub trait Model: WithSmallOrderMulGroup<3> + FromUniformBytes<64> + Ord {
    type P: Base;
    const SYMBOLIC: bool;
    fn lit(c: Self::P) -> Self;
    fn value(self) -> Option<Self::P>;
    /// An arbitrary field element.
    fn input(name: &str) -> Self;
    /// An arbitrary truth value (true iff the named input is zero).
    fn flip(name: &str) -> bool;
    /// An arbitrary value of an adversarial wire whose honest value is given.
    fn adversary(name: &str, honest: Self) -> Self;
    /// Restricts the inputs (path condition).
    fn assume_zero(self);
    fn assume_nonzero(self);
    /// Restricts the adversary: this constraint holds of its assignment.
    fn constrain_adv(self);
    fn constrain_adv_nonzero(self);
    /// Obligation: this is zero on every path, for all inputs.
    fn check_zero(self, label: &str);
    /// Obligation: this is zero for every adversarial assignment satisfying the constraints.
    fn check_adv(self, label: &str);
    fn check_eq(a: Self, b: Self, label: &str) {
        (a - b).check_zero(label)
    }
    fn check_adv_eq(a: Self, b: Self, label: &str) {
        (a - b).check_adv(label)
    }
    /// Obligation on a plain fact.
    fn check(ok: bool, label: &str) {
        let _ = if ok { Self::ZERO } else { Self::ONE }.check_zero(label);
    }
    /// An obligation this run cannot decide.
    fn undecided(label: &str, why: &str) {
        Self::P::with(|x| x.obs.push(Ob { label: label.into(), status: Status::Undecided, detail: why.into(), cex: None }));
    }
    /// Lets byte representations of symbolic values be taken (as an uninterpreted function).
    fn opaque_repr() {
        Self::P::with(|x| x.opaque_repr = true);
    }
    /// Restricts forking to zero tests on the given inputs (see `Ctx::fork_only`).
    fn fork_only(v: &[Self]) {
        let v = v.iter().filter_map(|x| x.first_var()).collect();
        Self::P::with(|x| x.fork_only = Some(v));
    }
    /// Do the adversary's constraints force var^2 = t? (no obligation is recorded)
    fn var_squared_is(_var: u32, _t: Self) -> bool {
        true
    }
    /// The first wire this value mentions.
    fn first_var(self) -> Option<u32> {
        None
    }
    fn adv_len() -> usize {
        Self::P::with(|x| x.adv.len())
    }
    /// The constraints emitted since `start`, and the given outputs, with variables numbered from `base`.
    fn adv_trace(_start: usize, _base: u32, _outs: &[Self]) -> Vec<String> {
        vec![]
    }
    /// Forks: is this zero?
    fn decide_zero(self) -> bool {
        self == Self::ZERO
    }
}

fn unique<P: Base>(x: &mut Ctx<P>, name: &str) -> String {
    let n = x.counter.entry(name.to_string()).or_insert(0);
    *n += 1;
    if *n == 1 { name.to_string() } else { format!("{name}#{n}") }
}

impl<P: Base> Model for Sym<P> {
    type P = P;
    const SYMBOLIC: bool = true;
    fn lit(c: P) -> Self {
        Sym::lit(c)
    }
    fn value(self) -> Option<P> {
        self.constant()
    }
    fn input(name: &str) -> Self {
        P::with(|x| {
            let n = unique(x, name);
            let v = x.fresh(&n);
            x.inputs.push(v);
            let p = Poly::var(v);
            x.intern(p)
        })
        .into_sym()
    }
    fn flip(name: &str) -> bool {
        Self::input(name).decide_zero()
    }
    fn first_var(self) -> Option<u32> {
        self.poly().vars().into_iter().next()
    }
    fn var_squared_is(var: u32, t: Self) -> bool {
        let g = Poly::var(var).mul(&Poly::var(var)).add(&t.poly(), -P::ONE);
        P::with(|x| {
            x.forward();
            if let Some(r) = x.resolve(&g) {
                if x.get(r).is_zero() {
                    return true;
                }
            }
            // hypotheses within a few steps, not through variables every constraint mentions
            let mut count: std::collections::HashMap<u32, u32> = Default::default();
            for p in &x.adv {
                for v in p.vars() {
                    *count.entry(v).or_default() += 1;
                }
            }
            let hub = |v: &u32| count.get(v).is_some_and(|c| *c > 24);
            let mut s: std::collections::BTreeSet<u32> = g.vars().into_iter().filter(|v| !hub(v)).collect();
            for _ in 0..3 {
                let more: Vec<u32> = x.adv.iter().filter(|p| p.vars().iter().any(|v| s.contains(v))).flat_map(|p| p.vars()).filter(|v| !hub(v)).collect();
                s.extend(more);
                if s.len() > 80 {
                    break;
                }
            }
            let hyps: Vec<Poly<P>> = x.adv.iter().filter(|p| p.vars().iter().all(|v| hub(v) || s.contains(v))).cloned().collect();
            matches!(ideal::implies(&hyps, &[], &g, x.names.len() as u32, 20_000), ideal::Verdict::Proved)
        })
    }
    fn adv_trace(start: usize, base: u32, outs: &[Self]) -> Vec<String> {
        let outs: Vec<_> = outs.iter().map(|o| o.poly()).collect();
        P::with(|x| {
            // wires that existed before are named by their own names without the numbering suffix
            let vars_before: Vec<u32> = (0..base).collect();
            let first = vars_before.iter().rev().take_while(|_| true).count() as u32;
            let name = |v: u32| if v >= first { format!("n{}", v - first) } else { format!("o{}", first - v) };
            x.adv[start..].iter().chain(outs.iter().map(|o| &**o)).map(|p| p.show_full(&name)).collect()
        })
    }
    fn adversary(name: &str, _: Self) -> Self {
        Self::input(&format!("adv:{name}"))
    }
    fn assume_zero(self) {
        let p = (*self.poly()).clone();
        P::with(|x| x.zero.push(p));
    }
    fn assume_nonzero(self) {
        let p = (*self.poly()).clone();
        P::with(|x| x.nonzero.push(p));
    }
    fn constrain_adv(self) {
        let p = (*self.poly()).clone();
        if !p.is_zero() {
            P::with(|x| x.adv.push(p));
        }
    }
    fn constrain_adv_nonzero(self) {
        let p = (*self.poly()).clone();
        P::with(|x| x.adv_nonzero.push(p));
    }
    fn check_zero(self, label: &str) {
        check(self, label, false)
    }
    fn check_adv(self, label: &str) {
        check(self, label, true)
    }
}

trait IntoSym<P: Base> {
    fn into_sym(self) -> Sym<P>;
}
impl<P: Base> IntoSym<P> for u32 {
    fn into_sym(self) -> Sym<P> {
        let p = P::with(|x| x.get(self));
        Sym::of((*p).clone())
    }
}

fn check<P: Base>(s: Sym<P>, label: &str, adv: bool) {
    let p = s.poly();
    P::with(|x| {
        let v = x.implied(&p, adv);
        let (status, cex) = match v {
            ideal::Verdict::Proved => (Status::Proved, None),
            ideal::Verdict::Refuted => (Status::Failed, x.find_cex(&p, adv)),
            ideal::Verdict::Fuel => match x.find_cex(&p, adv) {
                Some(c) => (Status::Failed, Some(c)),
                None => (Status::Undecided, None),
            },
        };
        let detail = if status == Status::Proved {
            String::new()
        } else {
            let path: Vec<String> = x.zero.iter().map(|z| format!("{} = 0", x.show(z))).chain(x.nonzero.iter().map(|z| format!("{} != 0", x.show(z)))).take(8).collect();
            format!("residue {} on path [{}]", x.show(&p), path.join(", "))
        };
        x.obs.push(Ob {
            label: label.to_string(),
            status,
            detail,
            cex: cex.map(|c| c.into_iter().map(|(n, v)| (n, show_field(&v))).collect()),
        });
    })
}

macro_rules! concrete {
    ($f:ty) => {
        impl Model for $f {
            type P = $f;
            const SYMBOLIC: bool = false;
            fn lit(c: $f) -> Self {
                c
            }
            fn value(self) -> Option<$f> {
                Some(self)
            }
            fn input(name: &str) -> Self {
                <$f>::with(|x| {
                    let n = unique(x, name);
                    let v = match x.forced.get(&n) {
                        Some(v) => *v,
                        None => match x.next_rand() % 12 {
                            0 => <$f>::ZERO,
                            1 => <$f>::ONE,
                            2 => -<$f>::ONE,
                            3 => <$f>::from(x.next_rand() % 8),
                            4 if !x.log.is_empty() => {
                                let i = x.next_rand() as usize % x.log.len();
                                x.log[i].1
                            }
                            5 if !x.log.is_empty() => {
                                let i = x.next_rand() as usize % x.log.len();
                                -x.log[i].1
                            }
                            _ => x.rand_field(),
                        },
                    };
                    x.log.push((n, v));
                    v
                })
            }
            fn flip(name: &str) -> bool {
                <$f>::with(|x| {
                    let n = unique(x, name);
                    let v = x.forced.get(&n).copied().unwrap_or(<$f>::from(x.next_rand() % 2));
                    x.log.push((n, v));
                    v == <$f>::ZERO
                })
            }
            fn adversary(name: &str, honest: Self) -> Self {
                <$f>::with(|x| {
                    let n = unique(x, &format!("adv:{name}"));
                    let v = x.forced.get(&n).copied().unwrap_or(honest);
                    x.log.push((n, v));
                    v
                })
            }
            fn assume_zero(self) {
                if self != <$f>::ZERO {
                    panic::panic_any(Skip)
                }
            }
            fn assume_nonzero(self) {
                if self == <$f>::ZERO {
                    panic::panic_any(Skip)
                }
            }
            fn constrain_adv(self) {
                self.assume_zero()
            }
            fn constrain_adv_nonzero(self) {
                self.assume_nonzero()
            }
            fn check_zero(self, label: &str) {
                if self != <$f>::ZERO {
                    <$f>::with(|x| {
                        if x.violated.is_none() {
                            x.violated = Some(label.to_string());
                        }
                    });
                }
            }
            fn check_adv(self, label: &str) {
                self.check_zero(label)
            }
        }
    };
}
concrete!(pasta_curves::Fp);
concrete!(pasta_curves::Fq);

pub fn parse_field<P: Base>(s: &str) -> P {
    let (neg, s) = s.strip_prefix('-').map_or((false, s), |r| (true, r));
    let s = s.trim_start_matches("0x");
    let mut acc = P::ZERO;
    for c in s.chars() {
        acc = acc * P::from(16) + P::from(c.to_digit(16).unwrap() as u64);
    }
    if neg { -acc } else { acc }
}

/// Explores every path of `f` over the symbolic field.
pub fn prove<P: Base>(atom_limit: usize, fuel: i64, max_paths: usize, f: &dyn Fn()) -> (Vec<Ob>, usize) {
    P::with(|x| {
        *x = Ctx::new();
        x.atom_limit = atom_limit;
        x.fuel = fuel;
    });
    let mut paths = 0;
    loop {
        P::with(|x| x.reset_path());
        let before = P::with(|x| x.obs.len());
        let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
        paths += 1;
        P::with(|x| {
            if let Err(e) = r {
                if let Some(u) = e.downcast_ref::<Unsupported>() {
                    x.obs.push(Ob { label: "reach".into(), status: Status::Undecided, detail: u.0.clone(), cex: None });
                } else if !e.is::<Skip>() {
                    let m = message(&e);
                    let feasible = !matches!(x.implied(&Poly::constant(P::ONE), false), ideal::Verdict::Proved);
                    if feasible {
                        let cex = x.find_cex(&Poly::constant(P::ONE), false);
                        let path: Vec<String> = x.zero.iter().map(|z| format!("{} = 0", x.show(z))).chain(x.nonzero.iter().map(|z| format!("{} != 0", x.show(z)))).take(8).collect();
                        x.obs.push(Ob {
                            label: "no-panic".into(),
                            status: Status::Failed,
                            detail: format!("{m} on path [{}]", path.join(", ")),
                            cex: cex.map(|c| c.into_iter().map(|(n, v)| (n, show_field(&v))).collect()),
                        });
                    }
                }
            }
            let _ = before;
            // next path: flip the last undone decision
            x.decisions.truncate(x.pos.max(0));
            while let Some(true) = x.decisions.last() {
                x.decisions.pop();
            }
        });
        let done = P::with(|x| match x.decisions.last_mut() {
            None => true,
            Some(d) => {
                *d = true;
                false
            }
        });
        if done {
            break;
        }
        if paths >= max_paths {
            P::with(|x| x.obs.push(Ob { label: "paths".into(), status: Status::Undecided, detail: format!("more than {max_paths} paths"), cex: None }));
            break;
        }
    }
    (P::with(|x| std::mem::take(&mut x.obs)), paths)
}

fn message(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

pub enum Run {
    Pass,
    Skipped,
    Fail(String, Vec<(String, String)>),
}

/// Runs `f` once over the concrete field, with the given inputs forced (others pseudo-random).
pub fn concrete<P: Base>(seed: u64, forced: &[(String, String)], f: &dyn Fn()) -> Run {
    P::with(|x| {
        *x = Ctx::new();
        x.rng = seed.wrapping_mul(0x2545F4914F6CDD1D);
        x.forced = forced.iter().map(|(n, v)| (n.clone(), parse_field(v))).collect();
    });
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    P::with(|x| {
        let log = || x.log.iter().map(|(n, v)| (n.clone(), show_field(v))).collect::<Vec<_>>();
        match r {
            Err(e) if e.is::<Skip>() => Run::Skipped,
            Err(e) => Run::Fail(format!("panic: {}", message(&e)), log()),
            Ok(()) => match &x.violated {
                Some(l) => Run::Fail(l.clone(), log()),
                None => Run::Pass,
            },
        }
    })
}
/// The inputs the last concrete run drew.
pub fn last_log<P: Base>() -> Vec<(String, String)> {
    P::with(|x| x.log.iter().map(|(n, v)| (n.clone(), show_field(v))).collect())
}
