//! Contracts of header suffixes, discharged by Kani/CBMC over all values.
//!
//! `Suffix::new` may only refuse the values for which no element is left (the number of reserved
//! suffixes): that it does refuse them is shown under the harness crate.
use crate::header::Suffix;
#[cfg(not(kani))]
use kshim as kani;

const RESERVED: usize = 2;
fn any_new() -> (usize, Suffix) {
    let v: usize = kani::any();
    kani::assume(v <= usize::MAX - RESERVED);
    (v, Suffix::new(v))
}

kshim::harnesses! {
    /// Distinct application suffixes yield distinct elements, equal ones the same.
    fn c18_suffixes_distinct() unwind 4 {
        let (a, s) = any_new();
        let (b, t) = any_new();
        assert!((s.get() == t.get()) == (a == b), "c18_suffix_element_injective");
        assert!((s == t) == (a == b), "c18_suffix_equality");
        kani::cover!(a == b);
        kani::cover!(a != b);
    }

    /// No application suffix yields the element of a reserved one.
    fn c18_suffixes_not_reserved() unwind 4 {
        let (_, s) = any_new();
        let i: usize = kani::any();
        kani::assume(i < RESERVED);
        let r = Suffix::internal(i);
        assert!(s.get() != r.get(), "c18_suffix_not_reserved");
        assert!(s != r, "c18_suffix_not_reserved");
        kani::cover!(i == 0);
        kani::cover!(i == 1);
    }

    /// Reserved suffixes are distinct, and each is the same every time.
    fn c18_reserved_distinct() unwind 4 {
        let (i, j): (usize, usize) = (kani::any(), kani::any());
        kani::assume(i < RESERVED && j < RESERVED);
        assert!((Suffix::internal(i).get() == Suffix::internal(j).get()) == (i == j), "c18_reserved_distinct");
        kani::cover!(i != j);
    }

    /// Suffixes that are ordered or compared as map keys agree with equality.
    fn c18_suffix_order() unwind 4 {
        let (a, s) = any_new();
        let (b, t) = any_new();
        let r = Suffix::internal(0);
        assert!((s.cmp(&t) == core::cmp::Ordering::Equal) == (a == b), "c18_suffix_order");
        assert!(s.cmp(&t) == t.cmp(&s).reverse(), "c18_suffix_order");
        assert!(s.cmp(&r) != core::cmp::Ordering::Equal, "c18_suffix_order");
        kani::cover!(a != b);
    }
}
