//! Stand-in for the `ff` crate (0.14 pre-release fork used by ragu), which is
//! not obtainable offline. Only the trait surface ragu uses, with the same
//! signatures and documented semantics. Part of the trusted base.
#![no_std]
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use rand_core::Rng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait Field:
    Sized + Eq + Copy + Clone + Default + Send + Sync + fmt::Debug + 'static
    + ConditionallySelectable + ConstantTimeEq
    + Neg<Output = Self>
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self>
    + Sum + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self>
    + AddAssign + SubAssign + MulAssign
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self;
    fn is_zero(&self) -> Choice { self.ct_eq(&Self::ZERO) }
    fn is_zero_vartime(&self) -> bool { self.is_zero().into() }
    #[must_use]
    fn square(&self) -> Self;
    #[must_use]
    fn cube(&self) -> Self { self.square() * self }
    #[must_use]
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self);
    fn sqrt_alt(&self) -> (Choice, Self) { Self::sqrt_ratio(self, &Self::ONE) }
    fn sqrt(&self) -> CtOption<Self> {
        let (is_square, res) = Self::sqrt_ratio(self, &Self::ONE);
        CtOption::new(res, is_square)
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                let mut tmp = res;
                tmp *= self;
                res.conditional_assign(&tmp, (((e >> i) & 1) as u8).into());
            }
        }
        res
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                if ((*e >> i) & 1) == 1 { res.mul_assign(self); }
            }
        }
        res
    }
}

pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_u128(v: u128) -> Self {
        let lower = v as u64;
        let upper = (v >> 64) as u64;
        let mut tmp = Self::from(upper);
        for _ in 0..64 { tmp = tmp.double(); }
        tmp + Self::from(lower)
    }
    fn from_repr(repr: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> { Self::from_repr(repr).into() }
    fn to_repr(&self) -> Self::Repr;
    fn is_odd(&self) -> Choice;
    fn is_even(&self) -> Choice { !self.is_odd() }
    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    const ZETA: Self;
}

pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}

pub struct BatchInverter {}
impl BatchInverter {
    /// Inverts every nonzero element in place (zeroes stay), returning the
    /// inverse of the product of the nonzero elements.
    pub fn invert_with_external_scratch<F: Field>(elements: &mut [F], scratch: &mut [F]) -> F {
        assert!(scratch.len() >= elements.len());
        let mut acc = F::ONE;
        for (p, s) in elements.iter().zip(scratch.iter_mut()) {
            *s = acc;
            if !bool::from(p.is_zero()) { acc *= p; }
        }
        acc = acc.invert().unwrap();
        let allinv = acc;
        for (p, s) in elements.iter_mut().zip(scratch.iter()).rev() {
            if !bool::from(p.is_zero()) {
                let tmp = acc * *p;
                *p = acc * s;
                acc = tmp;
            }
        }
        allinv
    }
}
