//! Contracts of the polynomial helpers, at every length up to a bound (unbounded: verus/).
use crate::{ins, power, small};
use pasta_curves::Fp;
use ragu_arithmetic::{dot, eval, factor, factor_iter, geosum, low_u64, poly_with_roots};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vcd::{Contract, Model, contract, explore};

pub fn at<M: Model>(p: &[M], x: M) -> M {
    let mut r = M::ZERO;
    let mut pw = M::ONE;
    for c in p {
        r += *c * pw;
        pw *= x;
    }
    r
}
fn lengths<M: Model>(max: usize) -> Vec<usize> {
    if M::SYMBOLIC { (0..=max).collect() } else { vec![small::<M>("n", 7)] }
}
fn eval_c<M: Model>() {
    let x = M::input("x");
    for n in lengths::<M>(40) {
        let p = ins::<M>("p", n);
        M::check_eq(eval(&p, x), at(&p, x), "eval: the sum of coefficient times power");
        M::check_eq(eval(p.iter().rev(), x), at(&p.iter().rev().copied().collect::<Vec<_>>(), x), "eval: any double-ended sequence");
    }
}
fn dot_c<M: Model>() {
    for n in lengths::<M>(40) {
        let (a, b) = (ins::<M>("a", n), ins::<M>("b", n));
        let want = a.iter().zip(&b).fold(M::ZERO, |s, (x, y)| s + *x * *y);
        M::check_eq(dot(&a, &b), want, "dot: the sum of products");
        if n > 0 {
            M::check(catch_unwind(AssertUnwindSafe(|| dot(&a, &b[1..]))).is_err(), "dot: different lengths are refused");
            M::check(catch_unwind(AssertUnwindSafe(|| dot(&a[1..], &b))).is_err(), "dot: different lengths are refused");
        }
    }
}
fn geosum_c<M: Model>() {
    let r = M::input("r");
    for m in if M::SYMBOLIC { (0..=130).collect() } else { vec![small::<M>("m", 9)] } {
        let want = at(&vec![M::ONE; m], r);
        M::check_eq(geosum(r, m), want, "geosum: 1 + r + ... + r^(m-1)");
    }
}
/// (r - 1) * geosum(r, m) = r^m - 1 for every m; at r = 1 it is m.
fn geosum_large() {
    let r = Fp::input("r");
    let mut m = small::<Fp>("m", 30) << (small::<Fp>("s", 6) % 35);
    if Fp::flip("max") {
        m = usize::MAX - m % 5;
    }
    Fp::check_eq((r - Fp::from(1)) * geosum(r, m), power(r, m as u128) - Fp::from(1), "geosum: 1 + r + ... + r^(m-1)");
    Fp::check_eq(geosum(Fp::from(1), m), Fp::from(m as u64), "geosum: at ratio one it is the number of terms");
}
fn factor_c<M: Model>() {
    let (b, x) = (M::input("b"), M::input("X"));
    for n in lengths::<M>(24) {
        if n == 0 {
            continue;
        }
        let p = ins::<M>("p", n);
        let q = factor(p.iter().copied(), b);
        M::check(q.len() == n - 1, "factor: the quotient has one coefficient fewer");
        M::check_eq(at(&q, x) * (x - b) + at(&p, b), at(&p, x), "factor: q(X)(X - b) + p(b) = p(X)");
        let lazy: Vec<M> = factor_iter(p.iter().copied(), b).collect();
        M::check(lazy.len() == n - 1, "factor_iter: the quotient has one coefficient fewer");
        for (u, w) in q.iter().zip(lazy.iter().rev()) {
            M::check_eq(*u, *w, "factor_iter: highest degree first, same coefficients");
        }
    }
}
fn roots_c<M: Model>() {
    let x = M::input("X");
    for n in if M::SYMBOLIC { (0..=5).collect() } else { vec![small::<M>("n", 6)] } {
        let r = ins::<M>("r", n);
        let p = poly_with_roots(&r);
        M::check(p.len() == n + 1, "poly_with_roots: degree is the number of roots");
        if p.len() == n + 1 {
            M::check_eq(p[n], M::ONE, "poly_with_roots: monic");
        }
        M::check_eq(at(&p, x), r.iter().fold(M::ONE, |a, r| a * (x - *r)), "poly_with_roots: the product of X - r");
    }
}
/// The product's coefficients, for more roots (concrete).
fn roots_many() {
    let n = small::<Fp>("n", 8);
    let mut r = ins::<Fp>("r", n);
    if n > 2 && Fp::flip("repeat") {
        let k = small::<Fp>("k", 8) % n;
        for i in 0..n / 2 {
            r[i] = r[k];
        }
    }
    let mut want = vec![Fp::from(1)];
    for x in &r {
        let mut next = vec![Fp::from(0); want.len() + 1];
        for (i, c) in want.iter().enumerate() {
            next[i + 1] += *c;
            next[i] -= *c * x;
        }
        want = next;
    }
    Fp::check(poly_with_roots(&r) == want, "poly_with_roots: the product of X - r");
}
fn low() {
    let x = Fp::input("x");
    let mut v = 0u128;
    // value mod 2^64 by binary long division of the canonical integer
    let r = ff::PrimeField::to_repr(&x);
    for (i, b) in r.as_ref().iter().enumerate().take(8) {
        v += (*b as u128) << (8 * i);
    }
    Fp::check(low_u64(&x) as u128 == v, "low_u64: the low 64 bits of the canonical integer");
    let k = small::<Fp>("k", 60) as u64;
    Fp::check(low_u64(&Fp::from(k)) == k, "low_u64: the low 64 bits of the canonical integer");
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C04", "eval", "ragu_arithmetic eval", eval_c, bound "lengths 0..=40 symbolically, up to 127 concretely; all field values");
    contract!(v, "C04", "dot", "ragu_arithmetic dot", dot_c, bound "lengths 0..=40 symbolically, up to 127 concretely; all field values");
    contract!(v, "C04", "geosum", "ragu_arithmetic geosum", geosum_c, bound "m in 0..=130 symbolically, up to 511 concretely; all ratios");
    explore!(v, "C04", "geosum, any m", "ragu_arithmetic geosum", geosum_large, bound "sampled ratios and m up to usize::MAX");
    contract!(v, "C04", "factor", "ragu_arithmetic factor, factor_iter", factor_c, bound "lengths 1..=24 symbolically, up to 127 concretely; all field values");
    contract!(v, "C04", "poly_with_roots", "ragu_arithmetic poly_with_roots", roots_c, bound "0..=5 roots symbolically, up to 63 concretely; all field values");
    explore!(v, "C04", "poly_with_roots, many", "ragu_arithmetic poly_with_roots", roots_many, bound "up to 255 sampled roots, with repetitions");
    explore!(v, "C04", "low_u64", "ragu_arithmetic low_u64", low, bound "sampled elements");
}
