use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::Rng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) { let t = a as u128 + b as u128 + c as u128; (t as u64, (t >> 64) as u64) }
const fn sbb(a: u64, b: u64, br: u64) -> (u64, u64) { let t = (a as u128).wrapping_sub(b as u128 + (br >> 63) as u128); (t as u64, (t >> 64) as u64) }
const fn mac(a: u64, b: u64, c: u64, d: u64) -> (u64, u64) { let t = a as u128 + (b as u128) * (c as u128) + d as u128; (t as u64, (t >> 64) as u64) }

const fn sub_limbs(a: [u64; 4], b: [u64; 4], m: [u64; 4]) -> [u64; 4] {
    let (d0, br) = sbb(a[0], b[0], 0);
    let (d1, br) = sbb(a[1], b[1], br);
    let (d2, br) = sbb(a[2], b[2], br);
    let (d3, br) = sbb(a[3], b[3], br);
    let (d0, c) = adc(d0, m[0] & br, 0);
    let (d1, c) = adc(d1, m[1] & br, c);
    let (d2, c) = adc(d2, m[2] & br, c);
    let (d3, _) = adc(d3, m[3] & br, c);
    [d0, d1, d2, d3]
}
const fn add_limbs(a: [u64; 4], b: [u64; 4], m: [u64; 4]) -> [u64; 4] {
    let (d0, c) = adc(a[0], b[0], 0);
    let (d1, c) = adc(a[1], b[1], c);
    let (d2, c) = adc(a[2], b[2], c);
    let (d3, _) = adc(a[3], b[3], c);
    sub_limbs([d0, d1, d2, d3], m, m)
}
const fn mont_reduce(r: [u64; 8], m: [u64; 4], inv: u64) -> [u64; 4] {
    let mut r = r;
    let mut carry2 = 0u64;
    let mut i = 0;
    while i < 4 {
        let k = r[i].wrapping_mul(inv);
        let (_, c) = mac(r[i], k, m[0], 0);
        let (v, c) = mac(r[i + 1], k, m[1], c); r[i + 1] = v;
        let (v, c) = mac(r[i + 2], k, m[2], c); r[i + 2] = v;
        let (v, c) = mac(r[i + 3], k, m[3], c); r[i + 3] = v;
        let (v, c) = adc(r[i + 4], carry2, c); r[i + 4] = v;
        carry2 = c;
        i += 1;
    }
    sub_limbs([r[4], r[5], r[6], r[7]], m, m)
}
const fn mul_limbs(a: [u64; 4], b: [u64; 4], m: [u64; 4], inv: u64) -> [u64; 4] {
    let mut r = [0u64; 8];
    let mut i = 0;
    while i < 4 {
        let (v, c) = mac(r[i], a[i], b[0], 0); r[i] = v;
        let (v, c) = mac(r[i + 1], a[i], b[1], c); r[i + 1] = v;
        let (v, c) = mac(r[i + 2], a[i], b[2], c); r[i + 2] = v;
        let (v, c) = mac(r[i + 3], a[i], b[3], c); r[i + 3] = v;
        r[i + 4] = c;
        i += 1;
    }
    mont_reduce(r, m, inv)
}
const fn neg_inv(m0: u64) -> u64 {
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 { x = x.wrapping_mul(2u64.wrapping_sub(m0.wrapping_mul(x))); i += 1; }
    x.wrapping_neg()
}
const fn pow2_mod(n: u32, m: [u64; 4]) -> [u64; 4] {
    let mut x = [1u64, 0, 0, 0];
    let mut i = 0;
    while i < n { x = add_limbs(x, x, m); i += 1; }
    x
}
const fn pow_limbs(base: [u64; 4], e: [u64; 4], one: [u64; 4], m: [u64; 4], inv: u64) -> [u64; 4] {
    let mut r = one;
    let mut i = 256;
    while i > 0 {
        i -= 1;
        r = mul_limbs(r, r, m, inv);
        if (e[i / 64] >> (i % 64)) & 1 == 1 { r = mul_limbs(r, base, m, inv); }
    }
    r
}
const fn shr(a: [u64; 4], n: u32) -> [u64; 4] {
    let mut a = a; let mut k = 0;
    while k < n {
        a = [(a[0] >> 1) | (a[1] << 63), (a[1] >> 1) | (a[2] << 63), (a[2] >> 1) | (a[3] << 63), a[3] >> 1];
        k += 1;
    }
    a
}

macro_rules! field {
    ($F:ident, $modulus:expr, $modstr:expr, $zeta:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash)]
        #[repr(transparent)]
        pub struct $F([u64; 4]);
        impl $F {
            const M: [u64; 4] = $modulus;
            const INV: u64 = neg_inv(Self::M[0]);
            const R: [u64; 4] = pow2_mod(256, Self::M);
            const R2: [u64; 4] = pow2_mod(512, Self::M);
            const T: [u64; 4] = shr(sub_limbs(Self::M, [1, 0, 0, 0], Self::M), 32);
            pub const fn from_raw(v: [u64; 4]) -> Self { $F(mul_limbs(v, Self::R2, Self::M, Self::INV)) }
            pub const fn zero() -> Self { $F([0; 4]) }
            pub const fn one() -> Self { $F(Self::R) }
            pub const fn neg(&self) -> Self { $F(sub_limbs([0; 4], self.0, Self::M)) }
            pub const fn add(&self, o: &Self) -> Self { $F(add_limbs(self.0, o.0, Self::M)) }
            pub const fn sub(&self, o: &Self) -> Self { $F(sub_limbs(self.0, o.0, Self::M)) }
            pub const fn mul(&self, o: &Self) -> Self { $F(mul_limbs(self.0, o.0, Self::M, Self::INV)) }
            pub const fn square(&self) -> Self { self.mul(self) }
            pub const fn double(&self) -> Self { self.add(self) }
            const fn cpow(self, e: [u64; 4]) -> Self { $F(pow_limbs(self.0, e, Self::R, Self::M, Self::INV)) }
            fn canon(&self) -> [u64; 4] {
                mont_reduce([self.0[0], self.0[1], self.0[2], self.0[3], 0, 0, 0, 0], Self::M, Self::INV)
            }
            fn wide(v: [u64; 8]) -> Self {
                let lo = $F(mul_limbs([v[0], v[1], v[2], v[3]], Self::R2, Self::M, Self::INV));
                let hi = $F(mul_limbs([v[4], v[5], v[6], v[7]], Self::R2, Self::M, Self::INV));
                lo + $F(mul_limbs(hi.0, Self::R2, Self::M, Self::INV))
            }
        }
        impl fmt::Debug for $F {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let c = self.canon();
                write!(f, "0x{:016x}{:016x}{:016x}{:016x}", c[3], c[2], c[1], c[0])
            }
        }
        impl Default for $F { fn default() -> Self { Self::zero() } }
        impl Ord for $F {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                let (a, b) = (self.canon(), o.canon());
                (a[3], a[2], a[1], a[0]).cmp(&(b[3], b[2], b[1], b[0]))
            }
        }
        impl PartialOrd for $F { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
        impl From<u64> for $F { fn from(v: u64) -> Self { Self::from_raw([v, 0, 0, 0]) } }
        impl From<bool> for $F { fn from(v: bool) -> Self { if v { Self::one() } else { Self::zero() } } }
        impl ConstantTimeEq for $F { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.0 == o.0) as u8) } }
        impl ConditionallySelectable for $F {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } }
        }
        impl Neg for $F { type Output = $F; fn neg(self) -> $F { $F(sub_limbs([0; 4], self.0, Self::M)) } }
        impl<'a> Neg for &'a $F { type Output = $F; fn neg(self) -> $F { -*self } }
        field!(@bin $F, Add, add, AddAssign, add_assign, |a: $F, b: $F| $F(add_limbs(a.0, b.0, $F::M)));
        field!(@bin $F, Sub, sub, SubAssign, sub_assign, |a: $F, b: $F| $F(sub_limbs(a.0, b.0, $F::M)));
        field!(@bin $F, Mul, mul, MulAssign, mul_assign, |a: $F, b: $F| $F(mul_limbs(a.0, b.0, $F::M, $F::INV)));
        impl<T: core::borrow::Borrow<$F>> Sum<T> for $F { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + *b.borrow()) } }
        impl<T: core::borrow::Borrow<$F>> Product<T> for $F { fn product<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * *b.borrow()) } }
        impl Field for $F {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
                let mut v = [0u64; 8];
                for x in v.iter_mut() { *x = rng.next_u64(); }
                Self::wide(v)
            }
            fn square(&self) -> Self { *self * *self }
            fn double(&self) -> Self { *self + *self }
            fn invert(&self) -> CtOption<Self> {
                let e = sub_limbs(Self::M, [2, 0, 0, 0], Self::M);
                CtOption::new(self.cpow(e), !self.is_zero())
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                // Tonelli-Shanks
                if bool::from(num.is_zero()) { return (Choice::from(1), Self::ZERO); }
                let dinv = match Option::<Self>::from(div.invert()) { Some(d) => d, None => return (Choice::from(0), Self::ZERO) };
                let a0 = *num * dinv;
                let euler = a0.cpow(shr(Self::M, 1));
                let is_sq = euler == Self::ONE;
                let a = if is_sq { a0 } else { a0 * Self::ROOT_OF_UNITY };
                // a is a square
                let t1 = { let mut t = Self::T; t[0] += 1; shr(t, 1) };
                let mut x = a.cpow(t1);
                let mut b = a.cpow(Self::T);
                let mut z = Self::ROOT_OF_UNITY;
                let mut v = 32u32;
                while b != Self::ONE {
                    let mut k = 0; let mut b2 = b;
                    while b2 != Self::ONE { b2 = b2.square(); k += 1; }
                    let mut w = z;
                    for _ in 0..(v - k - 1) { w = w.square(); }
                    z = w.square(); b *= z; x *= w; v = k;
                }
                (Choice::from(is_sq as u8), x)
            }
        }
        impl PrimeField for $F {
            type Repr = [u8; 32];
            fn from_repr(r: [u8; 32]) -> CtOption<Self> {
                let mut v = [0u64; 4];
                for i in 0..4 { let mut b = [0u8; 8]; b.copy_from_slice(&r[8 * i..8 * i + 8]); v[i] = u64::from_le_bytes(b); }
                let (_, br) = sbb(v[0], Self::M[0], 0);
                let (_, br) = sbb(v[1], Self::M[1], br);
                let (_, br) = sbb(v[2], Self::M[2], br);
                let (_, br) = sbb(v[3], Self::M[3], br);
                CtOption::new(Self::from_raw(v), Choice::from((br >> 63) as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let mut out = [0u8; 32];
                for (i, l) in self.canon().iter().enumerate() { out[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes()); }
                out
            }
            fn is_odd(&self) -> Choice { Choice::from((self.canon()[0] & 1) as u8) }
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const TWO_INV: Self = Self::from_raw([2, 0, 0, 0]).cpow(sub_limbs(Self::M, [2, 0, 0, 0], Self::M));
            const MULTIPLICATIVE_GENERATOR: Self = Self::from_raw([5, 0, 0, 0]);
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = Self::MULTIPLICATIVE_GENERATOR.cpow(Self::T);
            const ROOT_OF_UNITY_INV: Self = Self::ROOT_OF_UNITY.cpow(sub_limbs(Self::M, [2, 0, 0, 0], Self::M));
            const DELTA: Self = Self::MULTIPLICATIVE_GENERATOR.cpow([1 << 32, 0, 0, 0]);
        }
        impl WithSmallOrderMulGroup<3> for $F { const ZETA: Self = Self::from_raw($zeta); }
        impl FromUniformBytes<64> for $F {
            fn from_uniform_bytes(bytes: &[u8; 64]) -> Self {
                let mut v = [0u64; 8];
                for i in 0..8 { let mut b = [0u8; 8]; b.copy_from_slice(&bytes[8 * i..8 * i + 8]); v[i] = u64::from_le_bytes(b); }
                Self::wide(v)
            }
        }
    };
    (@bin $F:ident, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $e:expr) => {
        impl $Tr for $F { type Output = $F; #[inline] fn $f(self, o: $F) -> $F { ($e)(self, o) } }
        impl<'a> $Tr<&'a $F> for $F { type Output = $F; #[inline] fn $f(self, o: &'a $F) -> $F { ($e)(self, *o) } }
        impl<'a> $Tr<$F> for &'a $F { type Output = $F; #[inline] fn $f(self, o: $F) -> $F { ($e)(*self, o) } }
        impl<'a, 'b> $Tr<&'b $F> for &'a $F { type Output = $F; #[inline] fn $f(self, o: &'b $F) -> $F { ($e)(*self, *o) } }
        impl $TrA for $F { #[inline] fn $fa(&mut self, o: $F) { *self = ($e)(*self, o) } }
        impl<'a> $TrA<&'a $F> for $F { #[inline] fn $fa(&mut self, o: &'a $F) { *self = ($e)(*self, *o) } }
    };
}
field!(Fp, [0x992d30ed00000001, 0x224698fc094cf91b, 0x0000000000000000, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    [0x1dad5ebdfdfe4ab9, 0x1d1f8bd237ad3149, 0x2caad5dc57aab1b0, 0x12ccca834acdba71]);
field!(Fq, [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0000000000000000, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    [0x2aa9d2e050aa0e4f, 0x0fed467d47c033af, 0x511db4d81cf70f5a, 0x06819a58283e528e]);
