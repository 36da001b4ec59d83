//! Contracts for the 136-bit integer, discharged by Kani/CBMC over the full input domain.
//!
//! Everything is stated through the type's public operations, so the contracts do not depend on
//! how the type stores its bits: `make` builds the value of a number, `read` reads it back.
use crate::uendo::Uendo;
#[cfg(not(kani))]
use kshim as kani;

/// The 136-bit mathematical value: low 128 bits and high 8 bits.
#[derive(Clone, Copy, PartialEq, Eq)]
struct V {
    lo: u128,
    hi: u8,
}

const W: usize = 136;

fn any_v() -> V {
    V { lo: kani::any(), hi: kani::any() }
}

fn spec_shl(v: V, s: usize) -> V {
    if s >= W {
        return V { lo: 0, hi: 0 };
    }
    if s == 0 {
        return v;
    }
    if s < 128 {
        let hi: u8 = if s < 8 { v.hi << s } else { 0 };
        V { lo: v.lo << s, hi: hi | ((v.lo >> (128 - s)) as u8) }
    } else {
        V { lo: 0, hi: (v.lo as u8) << (s - 128) }
    }
}

fn spec_shr(v: V, s: usize) -> V {
    if s >= W {
        return V { lo: 0, hi: 0 };
    }
    if s == 0 {
        return v;
    }
    if s < 128 {
        V { lo: (v.lo >> s) | ((v.hi as u128) << (128 - s)), hi: if s < 8 { v.hi >> s } else { 0 } }
    } else {
        V { lo: (v.hi as u128) >> (s - 128), hi: 0 }
    }
}

/// Builds a number's value through public constructors and operators.
fn make(v: V) -> Uendo {
    Uendo::from(v.lo) | (Uendo::from(v.hi as u64) << 128)
}

/// Reads a value back bit by bit through public operators only.
fn read(x: Uendo) -> V {
    let mut v = V { lo: 0, hi: 0 };
    let mut i = 0;
    while i < W {
        if ((x >> i) & Uendo::ONE) == Uendo::ONE {
            if i < 128 { v.lo |= 1u128 << i } else { v.hi |= 1u8 << (i - 128) }
        }
        i += 1;
    }
    v
}

struct AnyRng;
impl rand::rand_core::TryRng for AnyRng {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(kani::any())
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(kani::any())
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
        for b in dst {
            *b = kani::any();
        }
        Ok(())
    }
}

kshim::harnesses! {
    /// Two values are equal exactly when they are the same number.
    fn c01_equality_is_numeric() unwind 140 {
        let (v, w) = (any_v(), any_v());
        let w = if kani::any() { v } else { w };
        let eq = make(v) == make(w);
        kani::cover!(eq);
        kani::cover!(!eq);
        assert!(eq == (v == w), "c01_equality_is_numeric");
    }

    /// Conversion from 64-bit and 128-bit integers keeps the value; the constants are 0 and 1.
    fn c01_conversions() unwind 140 {
        let a: u64 = kani::any();
        let b: u128 = kani::any();
        assert!(Uendo::from(a) == make(V { lo: a as u128, hi: 0 }), "c01_from_u64");
        assert!(Uendo::from(b) == make(V { lo: b, hi: 0 }), "c01_from_u128");
        assert!(Uendo::ZERO == make(V { lo: 0, hi: 0 }), "c01_zero");
        assert!(Uendo::ONE == make(V { lo: 1, hi: 0 }), "c01_one");
        assert!(Uendo::default() == Uendo::ZERO, "c01_default");
        assert!(Uendo::BITS == 136, "c01_bits");
        kani::cover!(a > 1 << 63);
    }

    fn c01_bitand() unwind 140 {
        let (v, w) = (any_v(), any_v());
        assert!(make(v) & make(w) == make(V { lo: v.lo & w.lo, hi: v.hi & w.hi }), "c01_bitand");
        kani::cover!(v.hi == 255);
    }

    fn c01_bitor() unwind 140 {
        let (v, w) = (any_v(), any_v());
        let e = make(V { lo: v.lo | w.lo, hi: v.hi | w.hi });
        assert!(make(v) | make(w) == e, "c01_bitor");
        let mut x = make(v);
        x |= make(w);
        assert!(x == e, "c01_bitor_assign");
        kani::cover!(v.hi == 255);
    }

    fn c01_shl_a() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        let s = s % 64;
        kani::cover!(s == 63);
        let e = make(spec_shl(v, s));
        assert!(make(v) << s == e, "c01_shl");
        let mut x = make(v);
        x <<= s;
        assert!(x == e, "c01_shl_assign");
    }

    fn c01_shl_b() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        let s = 64 + s % 64;
        kani::cover!(s == 64);
        let e = make(spec_shl(v, s));
        assert!(make(v) << s == e, "c01_shl");
        let mut x = make(v);
        x <<= s;
        assert!(x == e, "c01_shl_assign");
    }

    fn c01_shl_c() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        let s = 128 + s % 8;
        kani::cover!(s == 135);
        let e = make(spec_shl(v, s));
        assert!(make(v) << s == e, "c01_shl");
        let mut x = make(v);
        x <<= s;
        assert!(x == e, "c01_shl_assign");
    }

    fn c01_shl_d() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        kani::assume(s >= W);
        kani::cover!(s == W);
        let e = make(spec_shl(v, s));
        assert!(make(v) << s == e, "c01_shl");
        let mut x = make(v);
        x <<= s;
        assert!(x == e, "c01_shl_assign");
    }

    fn c01_shr_a() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        let s = s % 64;
        kani::cover!(s == 63);
        assert!(make(v) >> s == make(spec_shr(v, s)), "c01_shr");
    }

    fn c01_shr_b() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        let s = 64 + s % 64;
        kani::cover!(s == 64);
        assert!(make(v) >> s == make(spec_shr(v, s)), "c01_shr");
    }

    fn c01_shr_c() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        let s = 128 + s % 8;
        kani::cover!(s == 135);
        assert!(make(v) >> s == make(spec_shr(v, s)), "c01_shr");
    }

    fn c01_shr_d() unwind 40 {
        let v = any_v();
        let s: usize = kani::any();
        kani::assume(s >= W);
        kani::cover!(s == W);
        assert!(make(v) >> s == make(spec_shr(v, s)), "c01_shr");
    }

    /// Bit-by-bit reading recovers exactly the number that was put in.
    fn c01_bits_read_back() unwind 140 {
        let v = any_v();
        assert!(read(make(v)) == v, "c01_bits_read_back");
        kani::cover!(v.hi == 255);
    }

    /// Sampling from any generator whatsoever stays inside the 136-bit range.
    fn c01_sampling_in_range() unwind 140 {
        use rand::distr::Distribution;
        let x: Uendo = rand::distr::StandardUniform.sample(&mut AnyRng);
        assert!(make(read(x)) == x, "c01_sampling_in_range");
        kani::cover!(x == Uendo::ZERO);
    }
}
