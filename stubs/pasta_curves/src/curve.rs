use crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
use crate::{Fp, Fq};
use alloc::boxed::Box;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group};
use rand_core::Rng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

macro_rules! ops {
    ($L:ty, $R:ty, $O:ty, $Tr:ident, $f:ident, $e:expr) => {
        impl $Tr<$R> for $L { type Output = $O; fn $f(self, o: $R) -> $O { ($e)(self, o) } }
        impl<'a> $Tr<&'a $R> for $L { type Output = $O; fn $f(self, o: &'a $R) -> $O { ($e)(self, *o) } }
        impl<'a> $Tr<$R> for &'a $L { type Output = $O; fn $f(self, o: $R) -> $O { ($e)(*self, o) } }
        impl<'a, 'b> $Tr<&'b $R> for &'a $L { type Output = $O; fn $f(self, o: &'b $R) -> $O { ($e)(*self, *o) } }
    };
}
macro_rules! assign {
    ($L:ty, $R:ty, $Tr:ident, $f:ident, $e:expr) => {
        impl $Tr<$R> for $L { fn $f(&mut self, o: $R) { *self = ($e)(*self, o) } }
        impl<'a> $Tr<&'a $R> for $L { fn $f(&mut self, o: &'a $R) { *self = ($e)(*self, *o) } }
    };
}
macro_rules! curve {
    ($P:ident, $A:ident, $B:ident, $S:ident, $id:expr) => {
        /// Jacobian coordinates (identity: z = 0).
        #[derive(Clone, Copy, Debug)]
        pub struct $P { x: $B, y: $B, z: $B }
        /// Affine coordinates (identity: (0, 0)).
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct $A { x: $B, y: $B }
        impl Default for $P { fn default() -> Self { Self { x: $B::ONE, y: $B::ONE, z: $B::ZERO } } }
        impl Default for $A { fn default() -> Self { Self { x: $B::ZERO, y: $B::ZERO } } }
        impl $P {
            fn dbl(self) -> Self {
                if self.z == $B::ZERO { return self; }
                let a = self.x.square(); let b = self.y.square(); let c = b.square();
                let d = ((self.x + b).square() - a - c).double();
                let e = a.double() + a; let f = e.square();
                let x = f - d.double();
                let z = (self.y * self.z).double();
                let y = e * (d - x) - c.double().double().double();
                Self { x, y, z }
            }
            fn addp(self, o: Self) -> Self {
                if self.z == $B::ZERO { return o; }
                if o.z == $B::ZERO { return self; }
                let z1z1 = self.z.square(); let z2z2 = o.z.square();
                let u1 = self.x * z2z2; let u2 = o.x * z1z1;
                let s1 = self.y * z2z2 * o.z; let s2 = o.y * z1z1 * self.z;
                if u1 == u2 { return if s1 == s2 { self.dbl() } else { Self::default() }; }
                let h = u2 - u1; let i = h.double().square(); let j = h * i;
                let r = (s2 - s1).double(); let v = u1 * i;
                let x = r.square() - j - v.double();
                let y = r * (v - x) - (s1 * j).double();
                let z = ((self.z + o.z).square() - z1z1 - z2z2) * h;
                Self { x, y, z }
            }
            fn mulp(self, s: $S) -> Self {
                let r = s.to_repr();
                // fixed 4-bit window
                let mut t = [Self::default(); 16];
                for i in 1..16 { t[i] = t[i - 1].addp(self); }
                let mut acc = Self::default();
                for b in r.iter().rev() {
                    for n in [(b >> 4) as usize, (b & 15) as usize] {
                        acc = acc.dbl().dbl().dbl().dbl();
                        if n != 0 { acc = acc.addp(t[n]); }
                    }
                }
                acc
            }
            fn aff(&self) -> $A {
                match Option::<$B>::from(self.z.invert()) {
                    None => $A::default(),
                    Some(zi) => { let z2 = zi.square(); $A { x: self.x * z2, y: self.y * z2 * zi } }
                }
            }
        }
        impl $A {
            fn proj(self) -> $P { if bool::from(PrimeCurveAffine::is_identity(&self)) { $P::default() } else { $P { x: self.x, y: self.y, z: $B::ONE } } }
        }
        impl PartialEq for $P {
            fn eq(&self, o: &Self) -> bool {
                let (i, j) = (self.z == $B::ZERO, o.z == $B::ZERO);
                if i || j { return i == j; }
                let (z1, z2) = (self.z.square(), o.z.square());
                self.x * z2 == o.x * z1 && self.y * z2 * o.z == o.y * z1 * self.z
            }
        }
        impl core::cmp::Eq for $P {}
        impl ConstantTimeEq for $P { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
        impl ConstantTimeEq for $A { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
        impl ConditionallySelectable for $P { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
        impl ConditionallySelectable for $A { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
        impl From<$A> for $P { fn from(a: $A) -> $P { a.proj() } }
        impl<'a> From<&'a $A> for $P { fn from(a: &'a $A) -> $P { a.proj() } }
        impl From<$P> for $A { fn from(a: $P) -> $A { a.aff() } }
        impl<'a> From<&'a $P> for $A { fn from(a: &'a $P) -> $A { a.aff() } }
        impl Neg for $P { type Output = $P; fn neg(self) -> $P { $P { x: self.x, y: -self.y, z: self.z } } }
        impl<'a> Neg for &'a $P { type Output = $P; fn neg(self) -> $P { -*self } }
        impl Neg for $A { type Output = $A; fn neg(self) -> $A { $A { x: self.x, y: -self.y } } }
        impl<'a> Neg for &'a $A { type Output = $A; fn neg(self) -> $A { -*self } }
        ops!($P, $P, $P, Add, add, |a: $P, b: $P| a.addp(b));
        ops!($P, $P, $P, Sub, sub, |a: $P, b: $P| a.addp(-b));
        ops!($P, $A, $P, Add, add, |a: $P, b: $A| a.addp(b.proj()));
        ops!($P, $A, $P, Sub, sub, |a: $P, b: $A| a.addp(-b.proj()));
        ops!($A, $P, $P, Add, add, |a: $A, b: $P| a.proj().addp(b));
        ops!($A, $P, $P, Sub, sub, |a: $A, b: $P| a.proj().addp(-b));
        ops!($A, $A, $P, Add, add, |a: $A, b: $A| a.proj().addp(b.proj()));
        ops!($A, $A, $P, Sub, sub, |a: $A, b: $A| a.proj().addp(-b.proj()));
        ops!($P, $S, $P, Mul, mul, |a: $P, b: $S| a.mulp(b));
        ops!($A, $S, $P, Mul, mul, |a: $A, b: $S| a.proj().mulp(b));
        assign!($P, $P, AddAssign, add_assign, |a: $P, b: $P| a.addp(b));
        assign!($P, $P, SubAssign, sub_assign, |a: $P, b: $P| a.addp(-b));
        assign!($P, $A, AddAssign, add_assign, |a: $P, b: $A| a.addp(b.proj()));
        assign!($P, $A, SubAssign, sub_assign, |a: $P, b: $A| a.addp(-b.proj()));
        assign!($P, $S, MulAssign, mul_assign, |a: $P, b: $S| a.mulp(b));
        impl<T: core::borrow::Borrow<$P>> Sum<T> for $P { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + *b.borrow()) } }
        impl Group for $P {
            type Scalar = $S;
            fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
                loop {
                    let x = $B::random(rng);
                    let ysign = rng.next_u32() & 1;
                    if let Some(y) = Option::<$B>::from((x.square() * x + $B::from(5u64)).sqrt()) {
                        let y = if ysign == 1 { -y } else { y };
                        return $P { x, y, z: $B::ONE };
                    }
                }
            }
            fn identity() -> Self { Self::default() }
            fn generator() -> Self { $P { x: -$B::ONE, y: $B::from(2u64), z: $B::ONE } }
            fn is_identity(&self) -> Choice { self.z.is_zero() }
            fn double(&self) -> Self { self.dbl() }
        }
        impl Curve for $P {
            type AffineRepr = $A;
            fn to_affine(&self) -> $A { self.aff() }
            fn batch_normalize(p: &[Self], q: &mut [$A]) {
                assert_eq!(p.len(), q.len());
                let mut zs: alloc::vec::Vec<$B> = p.iter().map(|p| p.z).collect();
                let mut sc = zs.clone();
                if zs.is_empty() { return; }
                ff::BatchInverter::invert_with_external_scratch(&mut zs, &mut sc);
                for ((p, q), zi) in p.iter().zip(q.iter_mut()).zip(zs) {
                    *q = if p.z == $B::ZERO { $A::default() } else { let z2 = zi.square(); $A { x: p.x * z2, y: p.y * z2 * zi } };
                }
            }
        }
        impl PrimeGroup for $P {}
        impl PrimeCurve for $P { type Affine = $A; }
        impl PrimeCurveAffine for $A {
            type Scalar = $S;
            type Curve = $P;
            fn identity() -> Self { Self::default() }
            fn generator() -> Self { $A { x: -$B::ONE, y: $B::from(2u64) } }
            fn is_identity(&self) -> Choice { self.x.is_zero() & self.y.is_zero() }
            fn to_curve(&self) -> $P { self.proj() }
        }
        impl CurveExt for $P {
            type ScalarExt = $S;
            type Base = $B;
            type AffineExt = $A;
            const CURVE_ID: &'static str = $id;
            fn endo(&self) -> Self { $P { x: self.x * <$B as WithSmallOrderMulGroup<3>>::ZETA, y: self.y, z: self.z } }
            fn jacobian_coordinates(&self) -> ($B, $B, $B) { (self.x, self.y, self.z) }
            fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                Box::new(move |msg| {
                    let mut ctr = 0u32;
                    loop {
                        let mut st = blake2b_simd::Params::new().hash_length(64).personal(b"stub-h2c-pasta__").to_state();
                        st.update(&(domain_prefix.len() as u64).to_le_bytes());
                        st.update(domain_prefix.as_bytes());
                        st.update($id.as_bytes());
                        st.update(msg);
                        st.update(&ctr.to_le_bytes());
                        let h = st.finalize();
                        let mut b = [0u8; 64];
                        b.copy_from_slice(h.as_bytes());
                        let x = <$B as FromUniformBytes<64>>::from_uniform_bytes(&b);
                        if let Some(y) = Option::<$B>::from((x.square() * x + $B::from(5u64)).sqrt()) {
                            let odd: bool = y.is_odd().into();
                            let y = if odd == (b[63] & 1 == 1) { y } else { -y };
                            return $P { x, y, z: $B::ONE };
                        }
                        ctr += 1;
                    }
                })
            }
            fn is_on_curve(&self) -> Choice { CurveAffine::is_on_curve(&self.aff()) }
            fn a() -> $B { $B::ZERO }
            fn b() -> $B { $B::from(5u64) }
            fn new_jacobian(x: $B, y: $B, z: $B) -> CtOption<Self> {
                let p = $P { x, y, z };
                let ok = CurveExt::is_on_curve(&p);
                CtOption::new(p, ok)
            }
        }
        impl CurveAffine for $A {
            type ScalarExt = $S;
            type Base = $B;
            type CurveExt = $P;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                CtOption::new(Coordinates { x: self.x, y: self.y }, !PrimeCurveAffine::is_identity(self))
            }
            fn from_xy(x: $B, y: $B) -> CtOption<Self> {
                let p = $A { x, y };
                let ok = CurveAffine::is_on_curve(&p);
                CtOption::new(p, ok)
            }
            fn is_on_curve(&self) -> Choice {
                (self.y.square() - self.x.square() * self.x).ct_eq(&$B::from(5u64)) | PrimeCurveAffine::is_identity(self)
            }
            fn a() -> $B { $B::ZERO }
            fn b() -> $B { $B::from(5u64) }
        }
    };
}
curve!(Ep, EpAffine, Fp, Fq, "pallas");
curve!(Eq, EqAffine, Fq, Fp, "vesta");
