//! An affine curve y^2 = x^3 + 5 over the symbolic field. Only coordinates are symbolic; the group
//! law on projective points is not representable and raises `Unsupported`.
use crate::{Base, Sym, Unsupported};
use ff::Field;
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group};
use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
use std::iter::Sum;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

fn unsupported<T>() -> T {
    std::panic::panic_any(Unsupported("group operation on a symbolic point".into()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SymAff<P: Base> {
    pub x: Sym<P>,
    pub y: Sym<P>,
    pub inf: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SymProj<P: Base>(pub SymAff<P>);

impl<P: Base> SymAff<P> {
    /// A point with the given coordinates; the curve equation is not checked.
    pub fn raw(x: Sym<P>, y: Sym<P>) -> Self {
        SymAff { x, y, inf: false }
    }
}
impl<P: Base> Default for SymAff<P> {
    fn default() -> Self {
        SymAff { x: Sym::ZERO, y: Sym::ZERO, inf: true }
    }
}
impl<P: Base> Default for SymProj<P> {
    fn default() -> Self {
        SymProj(SymAff::default())
    }
}
impl<P: Base> ConditionallySelectable for SymAff<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.into() { *b } else { *a }
    }
}
impl<P: Base> ConditionallySelectable for SymProj<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.into() { *b } else { *a }
    }
}
impl<P: Base> ConstantTimeEq for SymAff<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        ((self == o) as u8).into()
    }
}
impl<P: Base> ConstantTimeEq for SymProj<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        ((self == o) as u8).into()
    }
}
impl<P: Base> Neg for SymAff<P> {
    type Output = Self;
    fn neg(self) -> Self {
        SymAff { x: self.x, y: -self.y, inf: self.inf }
    }
}
impl<P: Base> Neg for SymProj<P> {
    type Output = Self;
    fn neg(self) -> Self {
        SymProj(-self.0)
    }
}
macro_rules! un { ($($t:ident $f:ident $l:ty, $r:ty;)*) => { $(
    impl<P: Base> $t<$r> for $l { type Output = SymProj<P>; fn $f(self, _: $r) -> SymProj<P> { unsupported() } }
    impl<'r, P: Base> $t<&'r $r> for $l { type Output = SymProj<P>; fn $f(self, _: &'r $r) -> SymProj<P> { unsupported() } }
)* } }
un! {
    Add add SymAff<P>, SymAff<P>;
    Sub sub SymAff<P>, SymAff<P>;
    Mul mul SymAff<P>, Sym<P>;
    Add add SymProj<P>, SymProj<P>;
    Sub sub SymProj<P>, SymProj<P>;
    Add add SymProj<P>, SymAff<P>;
    Sub sub SymProj<P>, SymAff<P>;
    Mul mul SymProj<P>, Sym<P>;
}
macro_rules! una { ($($t:ident $f:ident $r:ty;)*) => { $(
    impl<P: Base> $t<$r> for SymProj<P> { fn $f(&mut self, _: $r) { unsupported() } }
    impl<'r, P: Base> $t<&'r $r> for SymProj<P> { fn $f(&mut self, _: &'r $r) { unsupported() } }
)* } }
una! { AddAssign add_assign SymProj<P>; SubAssign sub_assign SymProj<P>; AddAssign add_assign SymAff<P>; SubAssign sub_assign SymAff<P>; MulAssign mul_assign Sym<P>; }
impl<P: Base> Sum for SymProj<P> {
    fn sum<I: Iterator<Item = Self>>(_: I) -> Self {
        unsupported()
    }
}
impl<'a, P: Base> Sum<&'a SymProj<P>> for SymProj<P> {
    fn sum<I: Iterator<Item = &'a SymProj<P>>>(_: I) -> Self {
        unsupported()
    }
}
impl<P: Base> From<SymProj<P>> for SymAff<P> {
    fn from(p: SymProj<P>) -> Self {
        p.0
    }
}
impl<P: Base> From<SymAff<P>> for SymProj<P> {
    fn from(p: SymAff<P>) -> Self {
        SymProj(p)
    }
}
impl<P: Base> Group for SymProj<P> {
    type Scalar = Sym<P>;
    fn random<R: rand_core::Rng + ?Sized>(_: &mut R) -> Self {
        unsupported()
    }
    fn identity() -> Self {
        SymProj::default()
    }
    fn generator() -> Self {
        unsupported()
    }
    fn is_identity(&self) -> Choice {
        (self.0.inf as u8).into()
    }
    fn double(&self) -> Self {
        unsupported()
    }
}
impl<P: Base> PrimeGroup for SymProj<P> {}
impl<P: Base> Curve for SymProj<P> {
    type AffineRepr = SymAff<P>;
    fn to_affine(&self) -> SymAff<P> {
        self.0
    }
}
impl<P: Base> PrimeCurve for SymProj<P> {
    type Affine = SymAff<P>;
}
impl<P: Base> PrimeCurveAffine for SymAff<P> {
    type Scalar = Sym<P>;
    type Curve = SymProj<P>;
    fn identity() -> Self {
        SymAff::default()
    }
    fn generator() -> Self {
        // (-1, 2) is on y^2 = x^3 + 5
        SymAff::raw(-Sym::ONE, Sym::from(2))
    }
    fn is_identity(&self) -> Choice {
        (self.inf as u8).into()
    }
    fn to_curve(&self) -> SymProj<P> {
        SymProj(*self)
    }
}
impl<P: Base> CurveExt for SymProj<P> {
    type ScalarExt = Sym<P>;
    type Base = Sym<P>;
    type AffineExt = SymAff<P>;
    const CURVE_ID: &'static str = "symbolic";
    fn endo(&self) -> Self {
        unsupported()
    }
    fn jacobian_coordinates(&self) -> (Sym<P>, Sym<P>, Sym<P>) {
        unsupported()
    }
    fn hash_to_curve<'a>(_: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
        unsupported()
    }
    fn is_on_curve(&self) -> Choice {
        unsupported()
    }
    fn a() -> Sym<P> {
        Sym::ZERO
    }
    fn b() -> Sym<P> {
        Sym::from(P::CURVE_B)
    }
    fn new_jacobian(_: Sym<P>, _: Sym<P>, _: Sym<P>) -> CtOption<Self> {
        unsupported()
    }
}
impl<P: Base> CurveAffine for SymAff<P> {
    type ScalarExt = Sym<P>;
    type Base = Sym<P>;
    type CurveExt = SymProj<P>;
    fn coordinates(&self) -> CtOption<Coordinates<Self>> {
        if self.inf {
            return CtOption::new(Coordinates::default(), 0.into());
        }
        Coordinates::from_xy(self.x, self.y)
    }
    fn from_xy(x: Sym<P>, y: Sym<P>) -> CtOption<Self> {
        let p = SymAff::raw(x, y);
        let ok = p.is_on_curve();
        CtOption::new(p, ok)
    }
    fn is_on_curve(&self) -> Choice {
        let d = self.y.square() - (self.x.square() * self.x + Self::b());
        ((d == Sym::ZERO) as u8).into()
    }
    fn a() -> Sym<P> {
        Sym::ZERO
    }
    fn b() -> Sym<P> {
        Sym::from(P::CURVE_B)
    }
}
