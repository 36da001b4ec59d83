//! Contracts of sparse polynomials: every observer and every operation agrees with the dense vector.
use crate::{Rng, ins, power, small};
use ff::Field;
use ragu_arithmetic::FixedGenerators;
use ragu_circuits::polynomials::sparse::{Polynomial, View};
use ragu_circuits::polynomials::{R, Rank};
use symf::module::{ModAff, ModProj};
use vcd::{Contract, Model, contract};

type P<M, K = R<7>> = Polynomial<M, K>;
const N: usize = 128;

/// A dense vector with a pattern of gaps; what is stored is unknown, what is a gap is zero.
fn pattern<M: Model>(r: &mut Rng, len: usize) -> Vec<M> {
    let style = r.below(4);
    let mut v = vec![];
    let mut on = r.below(2) == 0;
    while v.len() < len {
        let run = match style {
            0 => 1 + r.below(3),
            1 => 1 + r.below(9),
            2 => 1 + r.below(40),
            _ => 3 + r.below(4),
        };
        for _ in 0..run.min(len - v.len()) {
            v.push(if on { M::input("c") } else { M::ZERO });
        }
        on = !on;
    }
    v
}
fn known<M: Model>(r: &mut Rng, len: usize) -> Vec<M> {
    (0..len).map(|_| if r.below(4) > 0 { M::ZERO } else if r.below(3) == 0 { -M::ONE } else { M::from(r.next()) }).collect()
}
fn pad<M: Model>(mut v: Vec<M>, n: usize) -> Vec<M> {
    v.resize(n, M::ZERO);
    v
}
fn at<M: Model>(v: &[M], x: M) -> M {
    v.iter().rev().fold(M::ZERO, |a, c| a * x + *c)
}
/// Everything observable about `p` is what it is for the dense vector `d`.
fn denotes<M: Model, K: Rank>(p: &P<M, K>, d: &[M], x: M, what: &str) {
    let l = |s: &str| format!("{what}: {s}");
    let got: Vec<M> = p.iter_coeffs().collect();
    M::check(got.len() == d.len(), &l("as many coefficients as the rank has"));
    for (g, w) in got.iter().zip(d) {
        M::check_eq(*g, *w, &l("each coefficient is that of the dense vector"));
    }
    let mut back: Vec<M> = p.iter_coeffs().rev().collect();
    back.reverse();
    M::check(back.len() == d.len() && back.iter().zip(&got).all(|(a, b)| a == b), &l("iterating backwards gives the same coefficients"));
    M::check_eq(p.eval(x), at(d, x), &l("evaluation is that of the dense vector"));
}
fn revdot<M: Model>(a: &[M], b: &[M]) -> M {
    a.iter().zip(b.iter().rev()).fold(M::ZERO, |s, (x, y)| s + *x * *y)
}
fn mode<M: Model>() {
    M::fork_only(&[]);
}
fn cases<M: Model>(n: u64) -> Vec<Rng> {
    if M::SYMBOLIC { (0..n * crate::depth(1) as u64).map(|s| Rng(9000 + s)).collect() } else { vec![Rng::chosen::<M>()] }
}
/// Every zero pattern of a run of unknown coefficients: here zero tests do fork.
fn runs<M: Model>() {
    let v: Vec<M> = ins("c", 9);
    let x = M::input("x");
    denotes(&P::<M>::from_coeffs(v.clone()), &pad(v, N), x, "from_coeffs");
}
fn views<M: Model>() {
    let x = M::input("x");
    mode::<M>();
    for mut r in cases::<M>(60) {
        let len = |r: &mut Rng| if r.below(4) == 0 { 32 } else { r.below(33) };
        let (a, b, c, d) = (len(&mut r), len(&mut r), len(&mut r), len(&mut r));
        let g: [Vec<M>; 4] = [pattern(&mut r, a), pattern(&mut r, b), pattern(&mut r, c), pattern(&mut r, d)];
        let mut t = View::<M, R<7>, _>::trace();
        (t.a, t.b, t.c, t.d) = (g[0].clone(), g[1].clone(), g[2].clone(), g[3].clone());
        let mut w = View::<M, R<7>, _>::wiring();
        (w.a, w.b, w.c, w.d) = (g[0].clone(), g[1].clone(), g[2].clone(), g[3].clone());
        let mut dense = vec![M::ZERO; N];
        let mut wired = vec![M::ZERO; N];
        let n = 32;
        for i in 0..n {
            let get = |k: usize| g[k].get(i).copied().unwrap_or(M::ZERO);
            (dense[2 * n + i], dense[2 * n - 1 - i], dense[i], dense[4 * n - 1 - i]) = (get(0), get(1), get(2), get(3));
            (wired[2 * n - 1 - i], wired[2 * n + i], wired[4 * n - 1 - i], wired[i]) = (get(0), get(1), get(2), get(3));
        }
        let (t, w) = (t.build(), w.build());
        denotes(&t, &dense, x, "trace view");
        denotes(&w, &wired, x, "wiring view");
        // the point of the two perspectives
        let dot = (0..n).fold(M::ZERO, |s, i| (0..4).fold(s, |s, k| g[k].get(i).map_or(s, |v| s + *v * *v)));
        M::check_eq(t.revdot(&w), dot, "the reversed product of a trace and a wiring view pairs each wire with itself");
    }
}
fn operations<M: Model>() {
    let (x, k) = (M::input("x"), M::input("k"));
    mode::<M>();
    for mut r in cases::<M>(150) {
        let (la, lb) = (if r.below(2) == 0 { N } else { r.below(N + 1) }, if r.below(2) == 0 { N } else { r.below(N + 1) });
        let (a, mut b) = (pattern::<M>(&mut r, la), pattern::<M>(&mut r, lb));
        if r.below(3) == 0 {
            // cancellation on a window
            let (i, j) = (r.below(la + 1), r.below(la + 1));
            for t in i.min(j)..i.max(j).min(lb) {
                b[t] = if r.below(2) == 0 { a[t] } else { -a[t] };
            }
        }
        let (p, q) = (P::<M>::from_coeffs(a.clone()), P::<M>::from_coeffs(b.clone()));
        let (a, b) = (pad(a, N), pad(b, N));
        denotes(&p, &a, x, "from_coeffs");
        M::check_eq(p.revdot(&q), revdot(&a, &b), "revdot: the reversed inner product of the dense vectors");
        M::check_eq(q.revdot(&p), revdot(&a, &b), "revdot: symmetric");
        let zip = |f: &dyn Fn(M, M) -> M| -> Vec<M> { a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect() };
        let mut s = p.clone();
        s.add_assign(&q);
        denotes(&s, &zip(&|x, y| x + y), x, "add_assign");
        let mut d = p.clone();
        d.sub_assign(&q);
        denotes(&d, &zip(&|x, y| x - y), x, "sub_assign");
        let mut n = p.clone();
        n.negate();
        denotes(&n, &zip(&|x, _| -x), x, "negate");
        let mut c = p.clone();
        c.scale(k);
        denotes(&c, &zip(&|x, _| x * k), x, "scale");
        let mut z = p.clone();
        z.scale(M::ZERO);
        denotes(&z, &vec![M::ZERO; N], x, "scale by zero");
        let mut e = p.clone();
        e.dilate(k);
        let powers: Vec<M> = (0..N).scan(M::ONE, |s, _| { let o = *s; *s *= k; Some(o) }).collect();
        denotes(&e, &a.iter().zip(&powers).map(|(x, p)| *x * *p).collect::<Vec<_>>(), x, "dilate");
        // chained, so that later operations meet blocks left by earlier ones
        let mut m = s.clone();
        m.sub_assign(&q);
        m.add_assign(&c);
        denotes(&m, &a.iter().map(|x| *x + *x * k).collect::<Vec<_>>(), x, "add, sub, add");
        M::check_eq(m.revdot(&s), revdot(&a.iter().map(|x| *x + *x * k).collect::<Vec<_>>(), &zip(&|x, y| x + y)), "revdot: of results of operations");
        let mut own = p.clone();
        own.sub_assign(&p);
        denotes(&own, &vec![M::ZERO; N], x, "sub_assign from itself");
        M::check_eq(own.revdot(&q), M::ZERO, "revdot: with nothing");
    }
}
fn folds<M: Model>() {
    let (x, k) = (M::input("x"), M::input("k"));
    mode::<M>();
    for mut r in cases::<M>(40) {
        let v: Vec<Vec<M>> = (0..r.below(5)).map(|_| { let l = r.below(N + 1); pattern::<M>(&mut r, l) }).collect();
        let ps: Vec<P<M>> = v.iter().map(|c| P::from_coeffs(c.clone())).collect();
        let mut want = vec![M::ZERO; N];
        for c in &v {
            for (w, c) in want.iter_mut().zip(pad(c.clone(), N)) {
                *w = *w * k + c;
            }
        }
        denotes(&P::<M>::fold(ps.iter(), k), &want, x, "fold");
        denotes(&P::<M>::fold(ps, M::ZERO), &v.last().map_or(vec![M::ZERO; N], |c| pad(c.clone(), N)), x, "fold with zero");
    }
}
/// Taking from both ends in any order.
fn ends<M: Model>() {
    mode::<M>();
    for mut r in cases::<M>(60) {
        let l = r.below(N + 1);
        let d = pattern::<M>(&mut r, l);
        let p = P::<M>::from_coeffs(d.clone());
        let d = pad(d, N);
        let mut it = p.iter_coeffs();
        let (mut f, mut b) = (0, N);
        let bias = r.below(5);
        while f < b {
            M::check(it.len() == b - f && it.size_hint() == (b - f, Some(b - f)), "iter_coeffs: the length counts what is left");
            if r.below(4) < bias {
                let c = it.next();
                M::check(c.is_some_and(|c| c == d[f]), "iter_coeffs: the front gives the next lowest coefficient");
                f += 1;
            } else {
                b -= 1;
                let c = it.next_back();
                M::check(c.is_some_and(|c| c == d[b]), "iter_coeffs: the back gives the next highest coefficient");
            }
        }
        M::check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "iter_coeffs: the ends meet once");
    }
}
struct Gens<M: Model>(Vec<ModAff<M>>, ModAff<M>);
impl<M: Model> FixedGenerators<ModAff<M>> for Gens<M> {
    fn g(&self) -> &[ModAff<M>] {
        &self.0
    }
    fn h(&self) -> &ModAff<M> {
        &self.1
    }
}
/// Committing is the sum of the generators at the positions of the coefficients.
pub fn commit<M: Model>() {
    let extra = 3;
    let g = Gens(ins::<M>("g", N + extra).into_iter().map(ModAff).collect(), ModAff(M::input("h")));
    for mut r in cases::<M>(12) {
        let l = if r.below(2) == 0 { N } else { r.below(N + 1) };
        let c = known::<M>(&mut r, l);
        let p = P::<M>::from_coeffs(c.clone());
        let want = c.iter().zip(&g.0).fold(M::ZERO, |s, (c, g)| s + *c * g.0);
        let got: ModProj<M> = p.commit(&g);
        M::check_eq(got.0, want, "commit: the sum of coefficient i times generator i");
        M::check_eq(p.commit_to_affine(&g).0, want, "commit_to_affine: the same point");
    }
}
fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
/// What does not fit is refused.
fn refused<M: Model>() {
    mode::<M>();
    let lens: Vec<usize> = if M::SYMBOLIC { vec![0, 1, 127, 128, 129, 130, 200] } else { vec![96 + small::<M>("len", 6)] };
    for l in lens {
        let v: Vec<M> = (0..l).map(|i| if i % 3 == 0 { M::ZERO } else { M::input("c") }).collect();
        let r = refuses(|| P::<M>::from_coeffs(v.clone()));
        M::check(r == (l > N), "from_coeffs refuses exactly more coefficients than the rank has");
        let zeros = refuses(|| P::<M>::from_coeffs(vec![M::ZERO; l]));
        M::check(zeros == (l > N), "from_coeffs refuses exactly more coefficients than the rank has");
    }
    let lens: Vec<usize> = if M::SYMBOLIC { vec![0, 31, 32, 33, 34, 64, 65] } else { vec![small::<M>("view", 7)] };
    for l in lens {
        for k in 0..4 {
            for wiring in [false, true] {
                let data: Vec<M> = (0..l).map(|_| M::input("c")).collect();
                let r = refuses(|| {
                    macro_rules! go { ($v:expr) => {{ let mut v = $v; *[&mut v.a, &mut v.b, &mut v.c, &mut v.d][k] = data.clone(); v.build() }} }
                    if wiring { go!(View::<M, R<7>, _>::wiring()) } else { go!(View::<M, R<7>, _>::trace()) }
                });
                M::check(r == (l > 32), "build refuses exactly more wires than the rank has gates");
            }
        }
    }
    let g = Gens((0..N - 1).map(|_| ModAff(M::ONE)).collect(), ModAff(M::ONE));
    let p = P::<M>::from_coeffs(vec![M::ONE]);
    M::check(refuses(|| p.commit(&g)), "commit refuses fewer generators than the rank has coefficients");
}
/// A random polynomial fills every coefficient.
fn random() {
    type F = ragu_pasta::Fp;
    let seed = ragu_arithmetic::low_u64(&F::input("seed"));
    let p = P::<F>::random(&mut Draw(Rng(seed)));
    let v: Vec<F> = p.iter_coeffs().collect();
    F::check(v.len() == N && (0..N).all(|i| v[i] != F::ZERO && !v[..i].contains(&v[i])), "random: every coefficient is drawn");
    F::check(p.eval(F::from(3)) == at(&v, F::from(3)), "random: evaluation is that of the dense vector");
}
struct Draw(Rng);
impl rand::TryRng for Draw {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.0.next() as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(self.0.next())
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Self::Error> {
        b.iter_mut().for_each(|b| *b = self.0.next() as u8);
        Ok(())
    }
}
impl rand::TryCryptoRng for Draw {}
/// The same at the production rank, at sizes a dense vector can hold.
fn production<M: Model>() {
    let x = M::input("x");
    mode::<M>();
    for mut r in cases::<M>(2) {
        let n = R::<13>::num_coeffs();
        let sparse = |r: &mut Rng| -> Vec<M> {
            let mut v = vec![M::ZERO; n];
            for _ in 0..6 {
                let (s, l) = (r.below(n), 1 + r.below(5));
                for c in v.iter_mut().skip(s).take(l) {
                    *c = M::input("c");
                }
            }
            v[n - 1] = M::input("c");
            v
        };
        let (a, b) = (sparse(&mut r), sparse(&mut r));
        let (p, q) = (P::<M, R<13>>::from_coeffs(a.clone()), P::<M, R<13>>::from_coeffs(b.clone()));
        M::check_eq(p.revdot(&q), revdot(&a, &b), "revdot: the reversed inner product of the dense vectors");
        let mut s = p.clone();
        s.sub_assign(&q);
        let d: Vec<M> = a.iter().zip(&b).map(|(x, y)| *x - *y).collect();
        M::check(s.iter_coeffs().zip(&d).all(|(x, y)| x == *y), "sub_assign: each coefficient is that of the dense vector");
        M::check_eq(s.eval(x), d.iter().enumerate().filter(|(_, c)| **c != M::ZERO).fold(M::ZERO, |t, (i, c)| t + *c * power(x, i as u128)), "eval: evaluation is that of the dense vector");
    }
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C07", "every zero pattern of a run", "sparse::Polynomial::{from_coeffs, iter_coeffs, eval}, extend_runs", runs, bound "runs of 9 coefficients, every zero pattern, all values", paths 600, weight 100);
    contract!(v, "C07", "views", "sparse::View::{trace, wiring, build}", views, bound "60 patterns of gaps, all values", weight 100);
    contract!(v, "C07", "operations", "sparse::Polynomial::{from_coeffs, add_assign, sub_assign, negate, scale, dilate, revdot, eval, iter_coeffs}, combine_assign", operations, bound "150 pairs of patterns of gaps and overlaps, all values, points and factors", weight 100);
    contract!(v, "C07", "folding", "sparse::Polynomial::fold", folds, bound "40 sequences of up to 4 patterns, all values and factors", weight 50);
    contract!(v, "C07", "iteration from both ends", "sparse::CoeffIter", ends, bound "60 patterns and orders of taking", weight 100);
    contract!(v, "C07", "commitments", "sparse::Polynomial::{commit, commit_to_affine}", commit, bound "12 patterns of known coefficients, all generators", weight 2);
    contract!(v, "C07", "what does not fit", "sparse::Polynomial::{from_coeffs, commit}, View::build", refused, bound "lengths around the limits of rank 7", weight 20);
    vcd::explore!(v, "C07", "random polynomials", "sparse::Polynomial::random", random, bound "random seeds", weight 20);
    contract!(v, "C07", "the production rank", "sparse::Polynomial::{from_coeffs, sub_assign, revdot, eval, iter_coeffs}", production, bound "2 pairs of patterns at rank 13, all values and points", weight 5);
    contract!(v, "C06", "commitments of polynomials", "sparse::Polynomial::{commit, commit_to_affine}", commit, bound "12 patterns of known coefficients, all generators", weight 2);
}
