//! Contracts of the scalar decomposition, for every scalar, window and number of terms.
use crate::{PrimeField, extracted::{bucket_lookup, get_at}};
#[cfg(not(kani))]
use kshim as kani;

struct Pasta;
impl PrimeField for Pasta {
    type Repr = [u8; 32];
}

kshim::harnesses! {
    /// Bit k of the digit of a window is bit segment * c + k of the scalar, and there are c of them: digits are the
    /// base-2^c digits of the scalar, for every scalar, every window and the window size of every number of terms.
    fn c06_digit() unwind 18 {
        let bytes: [u8; 32] = kani::any();
        let n: usize = kani::any();
        let c = bucket_lookup(n);
        assert!(1 <= c && c < 32, "c06_window_size_range");
        let segment: usize = kani::any();
        kani::assume(segment <= 256);
        let digit = get_at::<Pasta>(segment, c, &bytes);
        assert!(digit < 1 << c, "c06_digit_range");
        let k: usize = kani::any();
        kani::assume(k < c);
        let bit = segment * c + k;
        let want = bit < 256 && (bytes[(bit / 8) % 32] >> (bit % 8)) & 1 == 1;
        assert!(((digit >> k) & 1 == 1) == want, "c06_digit_bits");
        kani::cover!(c == 1);
        kani::cover!(c > 8);
        kani::cover!(want);
        kani::cover!(!want && bit < 256);
        kani::cover!(bit >= 256);
    }
}
