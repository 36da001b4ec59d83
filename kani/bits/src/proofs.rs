//! Contracts of bit reversal, for every integer and every number of bits.
use crate::extracted::bitreverse;
#[cfg(not(kani))]
use kshim as kani;

kshim::harnesses! {
    /// Bit k of the result is bit l - 1 - k of the argument, and nothing lies above bit l.
    fn c05_bitreverse_bits() unwind 2 {
        let n: u32 = kani::any();
        let l: u32 = kani::any();
        kani::assume(l <= 32);
        let r = bitreverse(n, l);
        let k: u32 = kani::any();
        kani::assume(k < 32);
        if k < l {
            assert!((r >> k) & 1 == (n >> (l - 1 - k)) & 1, "c05_bitreverse_bits");
        } else {
            assert!((r >> k) & 1 == 0, "c05_bitreverse_high_bits");
        }
        kani::cover!(l == 0);
        kani::cover!(l == 32);
        kani::cover!(k >= l);
    }

    /// Reversing twice is the identity on l-bit integers.
    fn c05_bitreverse_involution() unwind 2 {
        let n: u32 = kani::any();
        let l: u32 = kani::any();
        kani::assume(l <= 32);
        kani::assume(l == 32 || n >> l == 0);
        assert!(bitreverse(bitreverse(n, l), l) == n, "c05_bitreverse_involution");
        kani::cover!(l == 0);
        kani::cover!(l == 32);
    }

    /// The recursion over the top bit that the FFT proof assumes.
    fn c05_bitreverse_recursion() unwind 2 {
        let k: u32 = kani::any();
        let l: u32 = kani::any();
        kani::assume(l <= 32);
        kani::assume(l == 32 || k >> l == 0);
        if l == 0 {
            assert!(bitreverse(k, l) == 0, "c05_bitreverse_empty");
        } else {
            let h = 1u32 << (l - 1);
            let r = bitreverse(k, l) as u64;
            if k < h {
                assert!(r == 2 * bitreverse(k, l - 1) as u64, "c05_bitreverse_low_half");
            } else {
                assert!(r == 2 * bitreverse(k - h, l - 1) as u64 + 1, "c05_bitreverse_high_half");
            }
        }
        kani::cover!(l == 0);
        kani::cover!(l == 32);
        kani::cover!(l > 1 && l < 32);
    }
}
