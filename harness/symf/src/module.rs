//! The additive group of the field as a formal group: bases are variables, so an equation between
//! linear combinations with known scalars holds in every group of the same order.
use crate::{Model, Unsupported};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group};
use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
use std::iter::Sum;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

fn unsupported<T>() -> T {
    std::panic::panic_any(Unsupported("coordinates of a formal group element".into()))
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct ModAff<M: Model>(pub M);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct ModProj<M: Model>(pub M);
macro_rules! both { ($t:ident) => {
impl<M: Model> ConditionallySelectable for $t<M> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.into() { *b } else { *a }
    }
}
impl<M: Model> ConstantTimeEq for $t<M> {
    fn ct_eq(&self, o: &Self) -> Choice {
        ((self == o) as u8).into()
    }
}
impl<M: Model> Neg for $t<M> {
    type Output = Self;
    fn neg(self) -> Self {
        $t(-self.0)
    }
}
} }
both!(ModAff);
both!(ModProj);
macro_rules! un { ($($t:ident $f:ident $l:ty, $r:ty;)*) => { $(
    impl<M: Model> $t<$r> for $l { type Output = ModProj<M>; fn $f(self, o: $r) -> ModProj<M> { ModProj(self.0.$f(o.0)) } }
    impl<'r, M: Model> $t<&'r $r> for $l { type Output = ModProj<M>; fn $f(self, o: &'r $r) -> ModProj<M> { ModProj(self.0.$f(o.0)) } }
)* } }
un! {
    Add add ModAff<M>, ModAff<M>;
    Sub sub ModAff<M>, ModAff<M>;
    Add add ModProj<M>, ModProj<M>;
    Sub sub ModProj<M>, ModProj<M>;
    Add add ModProj<M>, ModAff<M>;
    Sub sub ModProj<M>, ModAff<M>;
}
macro_rules! sc { ($($l:ident)*) => { $(
    impl<M: Model> Mul<M> for $l<M> { type Output = ModProj<M>; fn mul(self, o: M) -> ModProj<M> { ModProj(self.0 * o) } }
    impl<'r, M: Model> Mul<&'r M> for $l<M> { type Output = ModProj<M>; fn mul(self, o: &'r M) -> ModProj<M> { ModProj(self.0 * *o) } }
)* } }
sc! { ModAff ModProj }
macro_rules! una { ($($t:ident $f:ident $r:ty;)*) => { $(
    impl<M: Model> $t<$r> for ModProj<M> { fn $f(&mut self, o: $r) { self.0.$f(o.0) } }
    impl<'r, M: Model> $t<&'r $r> for ModProj<M> { fn $f(&mut self, o: &'r $r) { self.0.$f(o.0) } }
)* } }
una! { AddAssign add_assign ModProj<M>; SubAssign sub_assign ModProj<M>; AddAssign add_assign ModAff<M>; SubAssign sub_assign ModAff<M>; }
impl<M: Model> MulAssign<M> for ModProj<M> { fn mul_assign(&mut self, o: M) { self.0 *= o } }
impl<'r, M: Model> MulAssign<&'r M> for ModProj<M> { fn mul_assign(&mut self, o: &'r M) { self.0 *= *o } }
impl<M: Model> Sum for ModProj<M> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::default(), |a, b| a + b)
    }
}
impl<'a, M: Model> Sum<&'a ModProj<M>> for ModProj<M> {
    fn sum<I: Iterator<Item = &'a ModProj<M>>>(i: I) -> Self {
        i.fold(Self::default(), |a, b| a + b)
    }
}
impl<M: Model> From<ModProj<M>> for ModAff<M> {
    fn from(p: ModProj<M>) -> Self {
        ModAff(p.0)
    }
}
impl<M: Model> From<ModAff<M>> for ModProj<M> {
    fn from(p: ModAff<M>) -> Self {
        ModProj(p.0)
    }
}
impl<M: Model> Group for ModProj<M> {
    type Scalar = M;
    fn random<R: rand_core::Rng + ?Sized>(_: &mut R) -> Self {
        unsupported()
    }
    fn identity() -> Self {
        ModProj(M::ZERO)
    }
    fn generator() -> Self {
        ModProj(M::ONE)
    }
    fn is_identity(&self) -> Choice {
        ((self.0 == M::ZERO) as u8).into()
    }
    fn double(&self) -> Self {
        ModProj(self.0.double())
    }
}
impl<M: Model> PrimeGroup for ModProj<M> {}
impl<M: Model> Curve for ModProj<M> {
    type AffineRepr = ModAff<M>;
    fn to_affine(&self) -> ModAff<M> {
        ModAff(self.0)
    }
}
impl<M: Model> PrimeCurve for ModProj<M> {
    type Affine = ModAff<M>;
}
impl<M: Model> PrimeCurveAffine for ModAff<M> {
    type Scalar = M;
    type Curve = ModProj<M>;
    fn identity() -> Self {
        ModAff(M::ZERO)
    }
    fn generator() -> Self {
        ModAff(M::ONE)
    }
    fn is_identity(&self) -> Choice {
        ((self.0 == M::ZERO) as u8).into()
    }
    fn to_curve(&self) -> ModProj<M> {
        ModProj(self.0)
    }
}
impl<M: Model> CurveExt for ModProj<M> {
    type ScalarExt = M;
    type Base = M;
    type AffineExt = ModAff<M>;
    const CURVE_ID: &'static str = "formal";
    fn endo(&self) -> Self {
        ModProj(self.0 * M::ZETA)
    }
    fn jacobian_coordinates(&self) -> (M, M, M) {
        unsupported()
    }
    fn hash_to_curve<'a>(_: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
        unsupported()
    }
    fn is_on_curve(&self) -> Choice {
        1.into()
    }
    fn a() -> M {
        M::ZERO
    }
    fn b() -> M {
        M::from(5)
    }
    fn new_jacobian(_: M, _: M, _: M) -> CtOption<Self> {
        unsupported()
    }
}
impl<M: Model> CurveAffine for ModAff<M> {
    type ScalarExt = M;
    type Base = M;
    type CurveExt = ModProj<M>;
    fn coordinates(&self) -> CtOption<Coordinates<Self>> {
        unsupported()
    }
    fn from_xy(_: M, _: M) -> CtOption<Self> {
        unsupported()
    }
    fn is_on_curve(&self) -> Choice {
        1.into()
    }
    fn a() -> M {
        M::ZERO
    }
    fn b() -> M {
        M::from(5)
    }
}
