//! Contracts of the two-layer folding of inner-product claims.
use crate::{Rng, ins};
use ragu_circuits::horner::Horner;
use ragu_circuits::polynomials::{R, sparse};
use ragu_pcd::verif::{fold, fold_revdot as fr, native};
use ragu_primitives::io::Buffer;
use ragu_primitives::vec::{ConstLen, FixedVec, Len};
use ragu_primitives::{Element, GadgetExt};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vcd::{Contract, Model, Vc, contract, explore, just};

type P<M> = sparse::Polynomial<M, R<7>>;
type El<M> = Element<'static, Vc<M>>;

#[derive(Clone, Copy, Default)]
pub struct Shape<const N: usize, const S: usize>;
impl<const N: usize, const S: usize> fr::Parameters for Shape<N, S> {
    type NumGroups = ConstLen<N>;
    type GroupSize = ConstLen<S>;
}
fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
fn h<M: Model>(e: &El<M>) -> M {
    e.wire().h
}
fn a<M: Model>(e: &El<M>) -> M {
    e.wire().adv
}
fn alloc<M: Model>(dr: &mut Vc<M>, x: M) -> El<M> {
    Element::alloc(dr, just(x)).unwrap()
}
/// Polynomials with a few unknown coefficients each: every product of a left and a right one is nonzero.
fn claims<M: Model>(name: &str, count: usize, at: &[usize]) -> Vec<P<M>> {
    (0..count)
        .map(|_| {
            let mut c = vec![M::ZERO; 128];
            for i in at {
                c[*i] = M::input(name);
            }
            P::from_coeffs(c)
        })
        .collect()
}
/// sum of items[i] * s^(len-1-i)
fn horner<M: Model>(items: &[M], s: M) -> M {
    items.iter().fold(M::ZERO, |acc, x| acc * s + *x)
}
fn matrix<T: Clone>(diagonal: &[T], cross: &[T]) -> Vec<Vec<T>> {
    let n = diagonal.len();
    let mut c = cross.iter();
    (0..n).map(|i| (0..n).map(|j| if i == j { diagonal[i].clone() } else { c.next().unwrap().clone() }).collect()).collect()
}
/// The folded claim of a group, by its definition.
fn claim<M: Model>(diagonal: &[M], cross: &[M], inv: M, munu: M) -> M {
    let rows: Vec<M> = matrix(diagonal, cross).iter().map(|r| horner(r, munu)).collect();
    horner(&rows, inv)
}

struct Ch<M> {
    mu: M,
    nu: M,
    inv: M,
}
fn challenge<M: Model>(n: &str) -> Ch<M> {
    let (mu, nu) = (M::input(&format!("mu{n}")), M::input(&format!("nu{n}")));
    let mu = if !M::SYMBOLIC && mu == M::ZERO { M::ONE } else { mu };
    mu.assume_nonzero();
    Ch { mu, nu, inv: Option::from(mu.invert()).unwrap() }
}

/// One statement for a number of claims: cross terms are exactly the off-diagonal products, and the
/// claim folded in the circuit is the inner product of the folded polynomials, on both layers.
fn fold_claims<M: Model, Q: fr::Parameters>(count: usize, at: &[usize]) {
    let (n, s) = (<Q::NumGroups as Len>::len(), <Q::GroupSize as Len>::len());
    let back: Vec<usize> = at.iter().map(|i| 127 - i).collect();
    let (l, r) = (claims::<M>("a", count, at), claims::<M>("b", count, &back));
    let (c1, c2) = (challenge::<M>(""), challenge::<M>("'"));
    let zero = P::<M>::from_coeffs(vec![]);
    let get = |v: &Vec<P<M>>, i: usize| v.get(i).cloned().unwrap_or_else(|| zero.clone());

    let errors = fr::inner_error_terms::<M, R<7>, Q>(&l, &r);
    M::check(errors.len() == n, "cross terms: one group of them per group of claims");
    let (mut ky, mut err) = (vec![], vec![]);
    for g in 0..n {
        ky.push((0..s).map(|i| get(&l, g * s + i).revdot(&get(&r, g * s + i))).collect::<Vec<M>>());
        let mut k = 0;
        for i in 0..s {
            for j in 0..s {
                if i != j {
                    M::check_eq(errors[g][k], get(&l, g * s + i).revdot(&get(&r, g * s + j)), "cross terms: the products of different claims of the group, row by row");
                    k += 1;
                }
            }
        }
        M::check(k == errors[g].len(), "cross terms: all of them and no other");
        err.push(errors[g].iter().copied().collect::<Vec<M>>());
    }
    let la = fr::fold_inner::<P<M>, M, Q>(&l, c1.inv);
    let lb = fr::fold_inner::<P<M>, M, Q>(&r, c1.mu * c1.nu);
    M::check(la.len() == n && lb.len() == n, "the first layer yields one polynomial per group");

    let dr = &mut Vc::<M>::new();
    let (mu, nu) = (alloc(dr, c1.mu), alloc(dr, c1.nu));
    let folder = fr::ClaimFolder::new(dr, &mu, &nu).unwrap();
    let mut outer = vec![];
    for g in 0..n {
        let e = FixedVec::from_fn(|i| alloc(dr, err[g][i]));
        let k = FixedVec::from_fn(|i| alloc(dr, ky[g][i]));
        let c = folder.fold_inner::<Q>(dr, &e, &k).unwrap();
        M::check_eq(h(&c), la[g].revdot(&lb[g]), "first layer: the folded claim is the inner product of the folded polynomials");
        outer.push(h(&c));
    }
    let errors = fr::outer_error_terms::<M, R<7>, Q>(&la, &lb);
    let (mu, nu) = (alloc(dr, c2.mu), alloc(dr, c2.nu));
    let folder = fr::ClaimFolder::new(dr, &mu, &nu).unwrap();
    let e = FixedVec::from_fn(|i| alloc(dr, errors[i]));
    let k = FixedVec::from_fn(|i| alloc(dr, outer[i]));
    let c = folder.fold_outer::<Q>(dr, &e, &k).unwrap();
    let fa = fr::fold_outer::<P<M>, M, Q>(la, c2.inv);
    let fb = fr::fold_outer::<P<M>, M, Q>(lb, c2.mu * c2.nu);
    M::check_eq(h(&c), fa.revdot(&fb), "second layer: the folded claim is the inner product of the folded polynomials");
}
/// Polynomials of which every coefficient is unknown.
fn dense<M: Model>() {
    M::fork_only(&[]);
    let all: Vec<usize> = (0..128).collect();
    fold_claims::<M, Shape<2, 2>>(3, &all);
}
fn folds<M: Model, const N: usize, const S: usize>() {
    M::fork_only(&[]);
    for count in if M::SYMBOLIC { (0..=N * S).collect() } else { vec![Rng::chosen::<M>().below(N * S + 1)] } {
        fold_claims::<M, Shape<N, S>>(count, if N * S <= 6 { &[3, 40] } else { &[17] });
    }
    let (l, r) = (claims::<M>("a", N * S + 1, &[0]), claims::<M>("b", N * S + 1, &[0]));
    let s = M::input("s");
    M::check(refuses(|| fr::fold_inner::<P<M>, M, Shape<N, S>>(&l, s)), "more polynomials than capacity are refused");
    M::check(refuses(|| fr::inner_error_terms::<M, R<7>, Shape<N, S>>(&l, &r)), "more claims than capacity are refused");
    M::check(refuses(|| fr::inner_error_terms::<M, R<7>, Shape<N, S>>(&l[..1], &r[..0])), "claims without a partner are refused");
}
fn production<M: Model>() {
    M::fork_only(&[]);
    let p = <native::RevdotParameters as fr::Parameters>::NumGroups::len() * <native::RevdotParameters as fr::Parameters>::GroupSize::len();
    if M::SYMBOLIC {
        for count in 0..=p {
            fold_claims::<M, native::RevdotParameters>(count, &[17]);
        }
    } else {
        fold_claims::<M, native::RevdotParameters>(Rng::chosen::<M>().below(p + 1), &[0, 17, 64, 127]);
    }
}

/// The circuit forces the folded claim, whatever the prover assigns.
fn forced<M: Model, const S: usize>() {
    let dr = &mut Vc::<M>::new();
    let c = challenge::<M>("");
    let (mu, nu) = (alloc(dr, c.mu), alloc(dr, c.nu));
    let folder = fr::ClaimFolder::new(dr, &mu, &nu).unwrap();
    let e: FixedVec<El<M>, fr::NumErrorTerms<ConstLen<S>>> = FixedVec::from_fn(|_| {
        let x = M::input("e");
        alloc(dr, x)
    });
    let k: FixedVec<El<M>, ConstLen<S>> = FixedVec::from_fn(|_| {
        let x = M::input("k");
        alloc(dr, x)
    });
    let spec = |get: fn(&El<M>) -> M, out: M, what: &dyn Fn(M, M)| {
        let (ks, es): (Vec<M>, Vec<M>) = (k.iter().map(get).collect(), e.iter().map(get).collect());
        // times mu^(S-1), so that no inverse is needed
        let rows: Vec<M> = matrix(&ks, &es).iter().map(|r| horner(r, get(&mu) * get(&nu))).collect();
        let want = rows.iter().rev().fold(M::ZERO, |acc, r| acc * get(&mu) + *r);
        let scale = (1..S).fold(M::ONE, |acc, _| acc * get(&mu));
        what(out * scale, want)
    };
    for (which, out) in [("groups of claims", folder.fold_inner::<Shape<2, S>>(dr, &e, &k).unwrap()), ("groups", folder.fold_outer::<Shape<S, 2>>(dr, &e, &k).unwrap())] {
        spec(h, h(&out), &|x, w| M::check_eq(x, w, &format!("value: {which} fold to the sum of claims and cross terms")));
        spec(a, a(&out), &|x, w| M::check_adv_eq(x, w, &format!("soundness: {which} are forced to fold to the sum of claims and cross terms")));
        let (ks, es): (Vec<M>, Vec<M>) = (k.iter().map(h).collect(), e.iter().map(h).collect());
        M::check_eq(h(&out), claim(&ks, &es, c.inv, c.mu * c.nu), "value: the folded claim by its definition");
    }
}

/// Folding scalars (evaluations) agrees with folding the polynomials they are evaluations of.
fn scalars<M: Model, const N: usize, const S: usize>() {
    M::fork_only(&[]);
    for count in if M::SYMBOLIC { (0..=N * S).collect() } else { vec![Rng::chosen::<M>().below(N * S + 1)] } {
        let dr = &mut Vc::<M>::new();
        let (x, s1, s2) = (M::input("x"), M::input("s"), M::input("t"));
        let p = claims::<M>("p", count, &[0, 2]);
        let vals: Vec<M> = p.iter().map(|p| p.eval(x)).collect();
        let e: Vec<El<M>> = vals.iter().map(|v| alloc(dr, *v)).collect();
        let (t1, t2) = (alloc(dr, s1), alloc(dr, s2));
        let out = fr::fold_two_layer::<_, Shape<N, S>>(dr, &e, &t1, &t2).unwrap();
        let want = fr::fold_outer::<P<M>, M, Shape<N, S>>(fr::fold_inner::<P<M>, M, Shape<N, S>>(&p, s1), s2);
        M::check_eq(h(&out), want.eval(x), "two-layer fold: evaluations fold as the polynomials do");
        let adv: Vec<M> = e.iter().map(a).collect();
        let at = |i: usize| adv.get(i).copied().unwrap_or(M::ZERO);
        let groups: Vec<M> = (0..N).map(|g| horner(&(0..S).map(|i| at(g * S + i)).collect::<Vec<M>>(), a(&t1))).collect();
        M::check_adv_eq(a(&out), horner(&groups, a(&t2)), "soundness: the two-layer fold is forced");
    }
}
fn one_layer<M: Model>() {
    M::fork_only(&[]);
    for n in 0..=6usize {
        let s = M::input("s");
        let x = M::input("x");
        let p = claims::<M>("p", n, &[0, 5, 127]);
        let v: Vec<M> = p.iter().map(|p| p.eval(x)).collect();
        M::check_eq(fold::<P<M>, M>(&p, s).eval(x), horner(&v, s), "fold: the first polynomial has the highest power of the scale");
        M::check_eq(P::fold(p.iter(), s).eval(x), horner(&v, s), "Polynomial::fold: the first polynomial has the highest power of the scale");
        let dr = &mut Vc::<M>::new();
        let e: Vec<El<M>> = ins::<M>("e", n).into_iter().map(|x| alloc(dr, x)).collect();
        let point = alloc(dr, s);
        let all = |f: fn(&El<M>) -> M| e.iter().map(f).collect::<Vec<M>>();
        let one = |mut v: Vec<M>| {
            v.push(M::ONE);
            v
        };
        let buf = |dr: &mut Vc<M>| {
            let mut b = Horner::new(&point);
            for x in &e {
                x.write(dr, &mut b).unwrap();
            }
            b
        };
        let o = buf(dr).finish(dr);
        M::check_eq(h(&o), horner(&all(h), s), "Horner: evaluates what was written, highest power first; zero if nothing was");
        M::check_adv_eq(a(&o), horner(&all(a), a(&point)), "Horner: soundness");
        let o = buf(dr).finish_ky(dr).unwrap();
        M::check_eq(h(&o), horner(&one(all(h)), s), "Horner: k(Y) ends in the constant term one");
        M::check_adv_eq(a(&o), horner(&one(all(a)), a(&point)), "Horner: soundness");
        let b = buf(dr);
        let mut c = b.clone();
        Buffer::write(&mut c, dr, &point).unwrap();
        let (b, c) = (b.finish(dr), c.finish(dr));
        M::check_eq(h(&b), horner(&all(h), s), "Horner: a clone does not write to the original");
        M::check_eq(h(&c), horner(&all(h), s) * s + s, "Horner: a clone continues from what was written");
        if n > 0 {
            let o = Element::fold(dr, e.iter(), &point).unwrap();
            M::check_eq(h(&o), horner(&all(h), s), "Element::fold: the first element has the highest power of the scale");
            M::check_adv_eq(a(&o), horner(&all(a), a(&point)), "Element::fold: soundness");
        }
    }
}
use ff::Field;
fn every_count() {
    type F = pasta_curves::Fp;
    for count in 0..=133 {
        fold_claims::<F, native::RevdotParameters>(count, &[17, 90]);
    }
    let too_many = claims::<F>("a", 134, &[0]);
    F::check(refuses(|| fr::fold_inner::<P<F>, F, native::RevdotParameters>(&too_many, F::ONE)), "more polynomials than capacity are refused");
}

pub fn register(v: &mut Vec<Contract>) {
    macro_rules! shapes {
        ($($n:literal $s:literal $f:ident)*) => { $({
            fn $f<M: Model>() { folds::<M, $n, $s>() }
            contract!(v, "C19", concat!("claims in ", $n, " groups of ", $s), "fold_revdot::{fold_inner,fold_outer,inner_error_terms,outer_error_terms,off_diagonal_pairs,ClaimFolder}", $f, bound "this number of groups and this group size, every number of claims; all challenges and all unknown coefficients at the positions used", atoms 100000);
        }
        {
            fn $f<M: Model>() { scalars::<M, $n, $s>() }
            contract!(v, "C19", concat!("evaluations in ", $n, " groups of ", $s), "fold_revdot::fold_two_layer", $f, bound "this number of groups and this group size, every number of evaluations", atoms 100000);
        })* };
    }
    shapes!(1 1 f11 1 2 f12 1 3 f13 2 1 f21 2 2 f22 2 3 f23 3 1 f31 3 2 f32 3 3 f33 4 2 f42 2 4 f24 5 1 f51 1 5 f15);
    macro_rules! sizes {
        ($($s:literal $f:ident)*) => { $({
            fn $f<M: Model>() { forced::<M, $s>() }
            contract!(v, "C19", concat!("ClaimFolder, ", $s, " claims"), "fold_revdot::{ClaimFolder::new,ClaimFolder::fold_inner,ClaimFolder::fold_outer,fold_products_impl}", $f, bound "this number of claims", atoms 100000);
        })* };
    }
    sizes!(1 s1 2 s2 3 s3 4 s4 5 s5 6 s6 7 s7 19 s19);
    contract!(v, "C19", "dense polynomials", "fold_revdot::{fold_inner,fold_outer,inner_error_terms,outer_error_terms,ClaimFolder}", dense, bound "three claims in two groups of two, every coefficient unknown", atoms 100000, weight 20);
    contract!(v, "C19", "one layer, Horner buffer", "fold_revdot::fold, sparse::Polynomial::fold, horner::Horner, Element::fold", one_layer, bound "up to six items");
    contract!(v, "C19", "production shape", "fold_revdot, native::RevdotParameters", production, bound "nineteen groups of seven; sixteen claims symbolically, any number concretely", atoms 100000, weight 20);
    explore!(v, "C19", "production shape, every count", "fold_revdot, native::RevdotParameters", every_count, bound "every number of claims up to the capacity, two unknown coefficients each", weight 2);
}
