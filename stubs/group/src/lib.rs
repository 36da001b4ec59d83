//! Stand-in for the `group` crate (see ../ff).
#![no_std]
extern crate alloc;
pub use ff;
use core::fmt;
use core::iter::Sum;
use core::marker::PhantomData;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::PrimeField;
use rand_core::Rng;
use subtle::Choice;
pub mod prime;

pub trait GroupOps<Rhs = Self, Output = Self>:
    Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs> {}
impl<T, Rhs, Output> GroupOps<Rhs, Output> for T where
    T: Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs> {}
pub trait GroupOpsOwned<Rhs = Self, Output = Self>: for<'r> GroupOps<&'r Rhs, Output> {}
impl<T, Rhs, Output> GroupOpsOwned<Rhs, Output> for T where T: for<'r> GroupOps<&'r Rhs, Output> {}
pub trait ScalarMul<Rhs, Output = Self>: Mul<Rhs, Output = Output> + MulAssign<Rhs> {}
impl<T, Rhs, Output> ScalarMul<Rhs, Output> for T where T: Mul<Rhs, Output = Output> + MulAssign<Rhs> {}
pub trait ScalarMulOwned<Rhs, Output = Self>: for<'r> ScalarMul<&'r Rhs, Output> {}
impl<T, Rhs, Output> ScalarMulOwned<Rhs, Output> for T where T: for<'r> ScalarMul<&'r Rhs, Output> {}

pub trait Group:
    Clone + Copy + fmt::Debug + Eq + Sized + Send + Sync + 'static
    + Sum + for<'a> Sum<&'a Self> + Neg<Output = Self>
    + GroupOps + GroupOpsOwned
    + ScalarMul<<Self as Group>::Scalar> + ScalarMulOwned<<Self as Group>::Scalar>
{
    type Scalar: PrimeField;
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self;
    fn identity() -> Self;
    fn generator() -> Self;
    fn is_identity(&self) -> Choice;
    #[must_use]
    fn double(&self) -> Self;
}

pub trait Curve: Group + GroupOps<<Self as Curve>::AffineRepr> + GroupOpsOwned<<Self as Curve>::AffineRepr> {
    type AffineRepr;
    fn batch_normalize(p: &[Self], q: &mut [Self::AffineRepr]) {
        assert_eq!(p.len(), q.len());
        for (p, q) in p.iter().zip(q.iter_mut()) { *q = p.to_affine(); }
    }
    fn to_affine(&self) -> Self::AffineRepr;
}

pub struct WnafBase<G: Group, const WINDOW_SIZE: usize> { base: G }
impl<G: Group, const W: usize> WnafBase<G, W> { pub fn new(base: G) -> Self { WnafBase { base } } }
pub struct WnafScalar<F: PrimeField, const WINDOW_SIZE: usize> { s: F, _m: PhantomData<F> }
impl<F: PrimeField, const W: usize> WnafScalar<F, W> { pub fn new(s: &F) -> Self { WnafScalar { s: *s, _m: PhantomData } } }
impl<G: Group, const W: usize> Mul<&WnafScalar<G::Scalar, W>> for &WnafBase<G, W> {
    type Output = G;
    fn mul(self, rhs: &WnafScalar<G::Scalar, W>) -> G { self.base * rhs.s }
}
