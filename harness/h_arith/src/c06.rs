//! Contracts of multi-scalar multiplication.
use crate::{ins, pool, small};
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use pasta_curves::{Ep, EpAffine, Eq, EqAffine, Fp, Fq};
use ragu_arithmetic::{FixedGenerators, batch_to_affine, mul};
use symf::{ModAff, ModProj};
use vcd::{Contract, Model, contract, explore};

/// Scalars whose digits exercise every window: zero, one, minus one, single bits, all-ones, random.
fn scalars<F: PrimeField>(n: usize, seed: u64) -> Vec<F> {
    let mut r = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = move || {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        r
    };
    (0..n)
        .map(|i| match (i as u64 + seed) % 8 {
            0 => F::ZERO,
            1 => F::ONE,
            2 => -F::ONE,
            3 => F::from(2).pow([next() % 254]),
            4 => -F::from(2).pow([next() % 254]),
            5 => F::from(2).pow([next() % 254]) - F::ONE,
            _ => (0..4).fold(F::ZERO, |a, _| a * F::from(2).pow([64u64]) + F::from(next())),
        })
        .collect()
}
/// Over formal bases: the result is the linear combination, so it is in every group.
fn formal<M: Model>() {
    let sizes: Vec<usize> = if M::SYMBOLIC {
        vec![0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 54, 55, 56, 148, 149, 150]
    } else {
        vec![small::<M>("n", 6)]
    };
    for (t, n) in sizes.into_iter().enumerate() {
        let s: Vec<M> = if M::SYMBOLIC { scalars::<M>(n, n as u64 + t as u64) } else { ins::<M>("s", n) };
        let b: Vec<ModAff<M>> = ins::<M>("B", n).into_iter().map(ModAff).collect();
        let got: ModProj<M> = pool(1 + t % 3, || mul(s.iter(), b.iter()));
        let want = s.iter().zip(&b).fold(M::ZERO, |a, (s, b)| a + *s * b.0);
        M::check_eq(got.0, want, "mul: the sum of the scaled bases");
    }
}
/// Bases that repeat, cancel and are the identity.
fn special<M: Model>() {
    let x = M::input("B");
    let y = M::input("C");
    for n in [2usize, 3, 7, 40] {
        let b: Vec<ModAff<M>> = (0..n).map(|i| ModAff([x, -x, M::ZERO, x, y][i % 5])).collect();
        let s = scalars::<M>(n, 3);
        let want = s.iter().zip(&b).fold(M::ZERO, |a, (s, b)| a + *s * b.0);
        let got: ModProj<M> = mul(s.iter(), b.iter());
        M::check_eq(got.0, want, "mul: the sum of the scaled bases");
    }
}
fn curves() {
    let n = [0, 1, 2, 3, 4, 31, 32, 54, 55, 60][small::<Fp>("n", 8) % 10];
    let g = EpAffine::generator();
    let s: Vec<Fq> = scalars(n, small::<Fp>("seed", 16) as u64);
    let b: Vec<EpAffine> = scalars::<Fq>(n, small::<Fp>("seed2", 16) as u64).into_iter().map(|k| (g * k).to_affine()).collect();
    let want = s.iter().zip(&b).fold(Ep::identity(), |a, (s, b)| a + *b * *s);
    Fp::check(mul(s.iter(), b.iter()) == want, "mul: equals the naive sum on Pallas");
    let g = EqAffine::generator();
    let s: Vec<Fp> = scalars(n, small::<Fp>("seed3", 16) as u64);
    let b: Vec<EqAffine> = scalars::<Fp>(n, small::<Fp>("seed4", 16) as u64).into_iter().map(|k| (g * k).to_affine()).collect();
    let want = s.iter().zip(&b).fold(Eq::identity(), |a, (s, b)| a + *b * *s);
    Fp::check(mul(s.iter(), b.iter()) == want, "mul: equals the naive sum on Vesta");
}
/// The bucket width changes with the number of terms: one list per width up to 9.
fn widths() {
    for n in [403usize, 404, 1096, 1097, 2981] {
        let s: Vec<Fp> = scalars(n, n as u64);
        let b: Vec<ModAff<Fp>> = (0..n).map(|_| ModAff(Fp::input("B"))).collect();
        let want = s.iter().zip(&b).fold(Fp::ZERO, |a, (s, b)| a + *s * b.0);
        Fp::check_eq(mul(s.iter(), b.iter()).0, want, "mul: the sum of the scaled bases");
    }
}
fn affine() {
    let g = EpAffine::generator();
    let k: Vec<Fq> = scalars(5, small::<Fp>("seed", 16) as u64);
    let p: [Ep; 5] = std::array::from_fn(|i| g * k[i]);
    let a = batch_to_affine::<EpAffine, 5>(p);
    Fp::check((0..5).all(|i| a[i] == p[i].to_affine()), "batch_to_affine: each point, in order");
}
struct Gens<M: Model>(Vec<ModAff<M>>, ModAff<M>);
impl<M: Model> FixedGenerators<ModAff<M>> for Gens<M> {
    fn g(&self) -> &[ModAff<M>] {
        &self.0
    }
    fn h(&self) -> &ModAff<M> {
        &self.1
    }
}
fn short<M: Model>() {
    let g = Gens(ins::<M>("G", 3).into_iter().map(ModAff).collect(), ModAff(M::input("H")));
    let (v, r) = (M::input("value"), M::input("blind"));
    M::check_eq(g.short_commit(v, r).0, v * g.0[0].0 + r * g.1.0, "short_commit: value times the first generator plus blind times h");
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C06", "mul over formal bases", "ragu_arithmetic mul", formal, bound "16 lengths up to 150, patterned scalars, all bases", weight 20);
    contract!(v, "C06", "mul with repeated and cancelling bases", "ragu_arithmetic mul", special, bound "lengths 2, 3, 7, 40", weight 10);
    explore!(v, "C06", "mul, every bucket width up to 9", "ragu_arithmetic mul, bucket_lookup", widths, bound "lengths around the thresholds up to 2981, formal bases", weight 1);
    explore!(v, "C06", "mul on the curves", "ragu_arithmetic mul", curves, bound "lengths up to 60, patterned scalars and bases", weight 10);
    explore!(v, "C06", "batch_to_affine", "ragu_arithmetic batch_to_affine", affine, bound "sampled points including the identity", weight 10);
    contract!(v, "C06", "FixedGenerators::short_commit", "ragu_arithmetic FixedGenerators::short_commit", short);
}
