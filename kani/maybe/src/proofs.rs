//! Contracts of the optional-witness type, discharged by Kani/CBMC over all values.
//!
//! The combinators are generic, so they are instantiated at a Copy type, at a type that owns its
//! value and counts its clones and drops, and at a zero-sized type; closures are symbolic
//! functions (an arbitrary xor and add) and count how often they are called.
use crate::maybe::{Always, Empty, Maybe, MaybeCast, MaybeKind, Perhaps};
use core::cell::Cell;
#[cfg(not(kani))]
use kshim as kani;

/// Owns a number; not Copy. Clone and drop are counted.
struct Own<'a>(u64, &'a Counter);
#[derive(Default)]
struct Counter {
    clones: core::sync::atomic::AtomicU32,
    drops: core::sync::atomic::AtomicU32,
}
use core::sync::atomic::Ordering::SeqCst;
impl Clone for Own<'_> {
    fn clone(&self) -> Self {
        self.1.clones.fetch_add(1, SeqCst);
        Own(self.0, self.1)
    }
}
impl Drop for Own<'_> {
    fn drop(&mut self) {
        self.1.drops.fetch_add(1, SeqCst);
    }
}

struct From64(u64);
impl From<u64> for From64 {
    fn from(v: u64) -> Self {
        From64(v.rotate_left(7) ^ 0x1234)
    }
}

fn never<T>() -> T {
    panic!("c02_absent_never_runs: a closure was called although the value is absent")
}

kshim::harnesses! {
    /// Present: construction, taking and borrowing are transparent.
    fn c02_present_just_take() unwind 8 {
        let v: u64 = kani::any();
        let calls = Cell::new(0u32);
        let a = Always::<()>::maybe_just(|| { calls.set(calls.get() + 1); v });
        assert!(calls.get() == 1, "c02_just_runs_once");
        assert!(*a.snag() == v, "c02_snag");
        assert!(*Maybe::as_ref(&a).take() == v, "c02_as_ref");
        assert!(a.take() == v, "c02_take");
        let b = <Always<u64> as Maybe<u64>>::just(|| v);
        assert!(b.take() == v, "c02_just");
        kani::cover!(v == 0);
    }

    /// Present: fallible construction returns exactly the closure's outcome.
    fn c02_present_try_just() unwind 8 {
        let ok: bool = kani::any();
        let (v, e): (u64, u32) = (kani::any(), kani::any());
        let calls = Cell::new(0u32);
        let f = || { calls.set(calls.get() + 1); if ok { Ok(v) } else { Err(e) } };
        match Always::<()>::maybe_try_just(f) {
            Ok(a) => assert!(ok && a.take() == v, "c02_try_just_ok"),
            Err(x) => assert!(!ok && x == e, "c02_try_just_err"),
        }
        assert!(calls.get() == 1, "c02_try_just_runs_once");
        match <Always<u64> as Maybe<u64>>::try_just(|| if ok { Ok(v) } else { Err(e) }) {
            Ok(a) => assert!(ok && a.take() == v, "c02_try_just_ok"),
            Err(x) => assert!(!ok && x == e, "c02_try_just_err"),
        }
        kani::cover!(ok);
        kani::cover!(!ok);
    }

    /// Present: mapping, chaining and conversion apply the function once to the value.
    fn c02_present_map() unwind 8 {
        let (v, m, k): (u64, u64, u64) = (kani::any(), kani::any(), kani::any());
        let calls = Cell::new(0u32);
        let f = |x: u64| { calls.set(calls.get() + 1); (x ^ m).wrapping_add(k) };
        let e = (v ^ m).wrapping_add(k);
        assert!(Always::<()>::maybe_just(|| v).map(f).take() == e, "c02_map");
        assert!(calls.get() == 1, "c02_map_once");
        assert!(Always::<()>::maybe_just(|| v).and_then(|x| Always::<()>::maybe_just(|| f(x))).take() == e, "c02_and_then");
        assert!(calls.get() == 2, "c02_and_then_once");
        let c: Perhaps<Always<()>, From64> = Maybe::into(Always::<()>::maybe_just(|| v));
        assert!(c.take().0 == From64::from(v).0, "c02_into");
        kani::cover!(m != 0);
    }

    /// Present: mutable borrows write through, and a clone is independent.
    fn c02_present_borrow_clone() unwind 8 {
        let (v, w): (u64, u64) = (kani::any(), kani::any());
        let mut a = Always::<()>::maybe_just(|| v);
        let b = Maybe::clone(&a);
        *Maybe::as_mut(&mut a).take() = w;
        assert!(*a.snag() == w, "c02_as_mut");
        assert!(b.take() == v, "c02_clone");
        Maybe::as_mut(&mut a).map(|r| *r = r.wrapping_add(1));
        assert!(a.take() == w.wrapping_add(1), "c02_as_mut_map");
        kani::cover!(v != w);
    }

    /// Present: owned values are moved, never duplicated or lost.
    fn c02_present_ownership() unwind 8 {
        let v: u64 = kani::any();
        let c = Counter::default();
        {
            let a = Always::<()>::maybe_just(|| Own(v, &c));
            let a = a.map(|o| o).and_then(|o| Always::<()>::maybe_just(|| o));
            assert!(c.drops.load(SeqCst) == 0 && c.clones.load(SeqCst) == 0, "c02_moves");
            let b = Maybe::clone(&a);
            assert!(c.clones.load(SeqCst) == 1, "c02_one_clone");
            assert!(a.take().0 == v && b.take().0 == v, "c02_owned_value");
        }
        assert!(c.drops.load(SeqCst) == 2, "c02_drops");
        kani::cover!(true);
    }

    /// Absent: no closure ever runs and the result is absent again.
    fn c02_absent_never_runs() unwind 8 {
        let Empty = <Empty as MaybeKind>::maybe_just(|| never::<u64>());
        let Empty = <Empty as Maybe<u64>>::just(|| never::<u8>());
        let ok = matches!(<Empty as MaybeKind>::maybe_try_just(|| never::<Result<u64, u8>>()), Ok(Empty));
        assert!(ok, "c02_absent_try_just");
        let ok = matches!(<Empty as Maybe<u64>>::try_just(|| never::<Result<u64, u8>>()), Ok(Empty));
        assert!(ok, "c02_absent_try_just");
        let ok = matches!(<Empty as MaybeKind>::maybe_try_just(|| Err::<u64, u8>(never())), Ok(Empty));
        assert!(ok, "c02_absent_try_just");
        let Empty = <Empty as Maybe<u64>>::map::<u32, _>(Empty, |_: u64| never());
        let Empty = <Empty as Maybe<u64>>::and_then::<u32, _>(Empty, |_: u64| never());
        let Empty = <Empty as Maybe<u64>>::into::<From64>(Empty);
        let Empty = <Empty as Maybe<u64>>::as_ref(&Empty);
        let Empty = <Empty as Maybe<u64>>::as_mut(&mut Empty);
        let Empty = <Empty as Maybe<u64>>::clone(&Empty);
        let Empty = <Empty as MaybeKind>::empty::<u64>();
        assert!(core::mem::size_of::<Empty>() == 0, "c02_absent_is_nothing");
        assert!(core::mem::size_of::<Perhaps<Empty, [u64; 9]>>() == 0, "c02_absent_is_nothing");
        kani::cover!(true);
    }

    /// Chains of combinators: present behaves like the plain computation; absent runs nothing.
    fn c02_chain() unwind 8 {
        fn chain<K: MaybeKind>(calls: &Cell<u32>, v: u64, m: u64, fail: bool) -> Result<Perhaps<K, (u64, u64)>, u32> {
            let a = K::maybe_just(|| { calls.set(calls.get() + 1); v });
            let b = K::maybe_try_just(|| { calls.set(calls.get() + 1); if fail { Err(7u32) } else { Ok(m) } })?;
            let c = a.and_then(|x| b.map(|y| x ^ y));
            let d = Maybe::clone(&c).map(|x| x.wrapping_add(m));
            Ok(c.and_then(|x| d.map(|y| (x, y))))
        }
        let (v, m, fail): (u64, u64, bool) = (kani::any(), kani::any(), kani::any());
        let calls = Cell::new(0);
        match chain::<Always<()>>(&calls, v, m, fail) {
            Ok(r) => assert!(!fail && r.take() == (v ^ m, (v ^ m).wrapping_add(m)), "c02_chain_present"),
            Err(e) => assert!(fail && e == 7, "c02_chain_present_err"),
        }
        assert!(calls.get() == 2, "c02_chain_calls");
        calls.set(0);
        assert!(matches!(chain::<Empty>(&calls, v, m, fail), Ok(Empty)), "c02_chain_absent");
        assert!(calls.get() == 0, "c02_chain_absent_calls");
        kani::cover!(fail);
    }

    /// Casting moves owned members, in order, without cloning or losing any.
    fn c02_cast_moves() unwind 8 {
        let v: [u64; 3] = kani::any();
        let c = Counter::default();
        {
            let t = Always::<()>::maybe_just(|| (Own(v[0], &c), Own(v[1], &c), Own(v[2], &c)));
            let (x, y, z) = <_ as Maybe<(Own, Own, Own)>>::cast::<(Own, Own, Own)>(t);
            assert!(c.clones.load(SeqCst) == 0 && c.drops.load(SeqCst) == 0, "c02_cast_moves");
            assert!(x.take().0 == v[0] && y.take().0 == v[1] && z.take().0 == v[2], "c02_cast_order");
            let t = Always::<()>::maybe_just(|| [Own(v[0], &c), Own(v[1], &c)]);
            let [x, y] = <_ as Maybe<[Own; 2]>>::cast(t);
            assert!(x.take().0 == v[0] && y.take().0 == v[1], "c02_cast_array_order");
            assert!(c.clones.load(SeqCst) == 0, "c02_cast_array_moves");
        }
        assert!(c.drops.load(SeqCst) == 5, "c02_cast_drops");
        kani::cover!(v[0] != v[1]);
    }

    /// Casting a 2-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_2() unwind 40 {
        let v: [u16; 2] = kani::any();
        let t: (u16,u16) = (v[0],v[1]);
        let (p0,p1) = <Always<(u16,u16)> as Maybe<(u16,u16)>>::cast::<(u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_2"); assert!(p1.take() == v[1], "c02_cast_tuple_2");
        let (Empty,Empty) = <Empty as Maybe<(u16,u16)>>::cast::<(u16,u16)>(Empty);
        kani::cover!(v[0] != v[1]);
    }

    /// Casting a 3-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_3() unwind 40 {
        let v: [u16; 3] = kani::any();
        let t: (u16,u16,u16) = (v[0],v[1],v[2]);
        let (p0,p1,p2) = <Always<(u16,u16,u16)> as Maybe<(u16,u16,u16)>>::cast::<(u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_3"); assert!(p1.take() == v[1], "c02_cast_tuple_3"); assert!(p2.take() == v[2], "c02_cast_tuple_3");
        let (Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16)>>::cast::<(u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[2]);
    }

    /// Casting a 4-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_4() unwind 40 {
        let v: [u16; 4] = kani::any();
        let t: (u16,u16,u16,u16) = (v[0],v[1],v[2],v[3]);
        let (p0,p1,p2,p3) = <Always<(u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_4"); assert!(p1.take() == v[1], "c02_cast_tuple_4"); assert!(p2.take() == v[2], "c02_cast_tuple_4"); assert!(p3.take() == v[3], "c02_cast_tuple_4");
        let (Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[3]);
    }

    /// Casting a 5-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_5() unwind 40 {
        let v: [u16; 5] = kani::any();
        let t: (u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4]);
        let (p0,p1,p2,p3,p4) = <Always<(u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_5"); assert!(p1.take() == v[1], "c02_cast_tuple_5"); assert!(p2.take() == v[2], "c02_cast_tuple_5"); assert!(p3.take() == v[3], "c02_cast_tuple_5"); assert!(p4.take() == v[4], "c02_cast_tuple_5");
        let (Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[4]);
    }

    /// Casting a 6-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_6() unwind 40 {
        let v: [u16; 6] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5]);
        let (p0,p1,p2,p3,p4,p5) = <Always<(u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_6"); assert!(p1.take() == v[1], "c02_cast_tuple_6"); assert!(p2.take() == v[2], "c02_cast_tuple_6"); assert!(p3.take() == v[3], "c02_cast_tuple_6"); assert!(p4.take() == v[4], "c02_cast_tuple_6"); assert!(p5.take() == v[5], "c02_cast_tuple_6");
        let (Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[5]);
    }

    /// Casting a 7-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_7() unwind 40 {
        let v: [u16; 7] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6]);
        let (p0,p1,p2,p3,p4,p5,p6) = <Always<(u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_7"); assert!(p1.take() == v[1], "c02_cast_tuple_7"); assert!(p2.take() == v[2], "c02_cast_tuple_7"); assert!(p3.take() == v[3], "c02_cast_tuple_7"); assert!(p4.take() == v[4], "c02_cast_tuple_7"); assert!(p5.take() == v[5], "c02_cast_tuple_7"); assert!(p6.take() == v[6], "c02_cast_tuple_7");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[6]);
    }

    /// Casting a 8-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_8() unwind 40 {
        let v: [u16; 8] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]);
        let (p0,p1,p2,p3,p4,p5,p6,p7) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_8"); assert!(p1.take() == v[1], "c02_cast_tuple_8"); assert!(p2.take() == v[2], "c02_cast_tuple_8"); assert!(p3.take() == v[3], "c02_cast_tuple_8"); assert!(p4.take() == v[4], "c02_cast_tuple_8"); assert!(p5.take() == v[5], "c02_cast_tuple_8"); assert!(p6.take() == v[6], "c02_cast_tuple_8"); assert!(p7.take() == v[7], "c02_cast_tuple_8");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[7]);
    }

    /// Casting a 9-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_9() unwind 40 {
        let v: [u16; 9] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_9"); assert!(p1.take() == v[1], "c02_cast_tuple_9"); assert!(p2.take() == v[2], "c02_cast_tuple_9"); assert!(p3.take() == v[3], "c02_cast_tuple_9"); assert!(p4.take() == v[4], "c02_cast_tuple_9"); assert!(p5.take() == v[5], "c02_cast_tuple_9"); assert!(p6.take() == v[6], "c02_cast_tuple_9"); assert!(p7.take() == v[7], "c02_cast_tuple_9"); assert!(p8.take() == v[8], "c02_cast_tuple_9");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[8]);
    }

    /// Casting a 10-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_10() unwind 40 {
        let v: [u16; 10] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_10"); assert!(p1.take() == v[1], "c02_cast_tuple_10"); assert!(p2.take() == v[2], "c02_cast_tuple_10"); assert!(p3.take() == v[3], "c02_cast_tuple_10"); assert!(p4.take() == v[4], "c02_cast_tuple_10"); assert!(p5.take() == v[5], "c02_cast_tuple_10"); assert!(p6.take() == v[6], "c02_cast_tuple_10"); assert!(p7.take() == v[7], "c02_cast_tuple_10"); assert!(p8.take() == v[8], "c02_cast_tuple_10"); assert!(p9.take() == v[9], "c02_cast_tuple_10");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[9]);
    }

    /// Casting a 11-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_11() unwind 40 {
        let v: [u16; 11] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_11"); assert!(p1.take() == v[1], "c02_cast_tuple_11"); assert!(p2.take() == v[2], "c02_cast_tuple_11"); assert!(p3.take() == v[3], "c02_cast_tuple_11"); assert!(p4.take() == v[4], "c02_cast_tuple_11"); assert!(p5.take() == v[5], "c02_cast_tuple_11"); assert!(p6.take() == v[6], "c02_cast_tuple_11"); assert!(p7.take() == v[7], "c02_cast_tuple_11"); assert!(p8.take() == v[8], "c02_cast_tuple_11"); assert!(p9.take() == v[9], "c02_cast_tuple_11"); assert!(p10.take() == v[10], "c02_cast_tuple_11");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[10]);
    }

    /// Casting a 12-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_12() unwind 40 {
        let v: [u16; 12] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_12"); assert!(p1.take() == v[1], "c02_cast_tuple_12"); assert!(p2.take() == v[2], "c02_cast_tuple_12"); assert!(p3.take() == v[3], "c02_cast_tuple_12"); assert!(p4.take() == v[4], "c02_cast_tuple_12"); assert!(p5.take() == v[5], "c02_cast_tuple_12"); assert!(p6.take() == v[6], "c02_cast_tuple_12"); assert!(p7.take() == v[7], "c02_cast_tuple_12"); assert!(p8.take() == v[8], "c02_cast_tuple_12"); assert!(p9.take() == v[9], "c02_cast_tuple_12"); assert!(p10.take() == v[10], "c02_cast_tuple_12"); assert!(p11.take() == v[11], "c02_cast_tuple_12");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[11]);
    }

    /// Casting a 13-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_13() unwind 40 {
        let v: [u16; 13] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_13"); assert!(p1.take() == v[1], "c02_cast_tuple_13"); assert!(p2.take() == v[2], "c02_cast_tuple_13"); assert!(p3.take() == v[3], "c02_cast_tuple_13"); assert!(p4.take() == v[4], "c02_cast_tuple_13"); assert!(p5.take() == v[5], "c02_cast_tuple_13"); assert!(p6.take() == v[6], "c02_cast_tuple_13"); assert!(p7.take() == v[7], "c02_cast_tuple_13"); assert!(p8.take() == v[8], "c02_cast_tuple_13"); assert!(p9.take() == v[9], "c02_cast_tuple_13"); assert!(p10.take() == v[10], "c02_cast_tuple_13"); assert!(p11.take() == v[11], "c02_cast_tuple_13"); assert!(p12.take() == v[12], "c02_cast_tuple_13");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[12]);
    }

    /// Casting a 14-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_14() unwind 40 {
        let v: [u16; 14] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_14"); assert!(p1.take() == v[1], "c02_cast_tuple_14"); assert!(p2.take() == v[2], "c02_cast_tuple_14"); assert!(p3.take() == v[3], "c02_cast_tuple_14"); assert!(p4.take() == v[4], "c02_cast_tuple_14"); assert!(p5.take() == v[5], "c02_cast_tuple_14"); assert!(p6.take() == v[6], "c02_cast_tuple_14"); assert!(p7.take() == v[7], "c02_cast_tuple_14"); assert!(p8.take() == v[8], "c02_cast_tuple_14"); assert!(p9.take() == v[9], "c02_cast_tuple_14"); assert!(p10.take() == v[10], "c02_cast_tuple_14"); assert!(p11.take() == v[11], "c02_cast_tuple_14"); assert!(p12.take() == v[12], "c02_cast_tuple_14"); assert!(p13.take() == v[13], "c02_cast_tuple_14");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[13]);
    }

    /// Casting a 15-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_15() unwind 40 {
        let v: [u16; 15] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_15"); assert!(p1.take() == v[1], "c02_cast_tuple_15"); assert!(p2.take() == v[2], "c02_cast_tuple_15"); assert!(p3.take() == v[3], "c02_cast_tuple_15"); assert!(p4.take() == v[4], "c02_cast_tuple_15"); assert!(p5.take() == v[5], "c02_cast_tuple_15"); assert!(p6.take() == v[6], "c02_cast_tuple_15"); assert!(p7.take() == v[7], "c02_cast_tuple_15"); assert!(p8.take() == v[8], "c02_cast_tuple_15"); assert!(p9.take() == v[9], "c02_cast_tuple_15"); assert!(p10.take() == v[10], "c02_cast_tuple_15"); assert!(p11.take() == v[11], "c02_cast_tuple_15"); assert!(p12.take() == v[12], "c02_cast_tuple_15"); assert!(p13.take() == v[13], "c02_cast_tuple_15"); assert!(p14.take() == v[14], "c02_cast_tuple_15");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[14]);
    }

    /// Casting a 16-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_16() unwind 40 {
        let v: [u16; 16] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_16"); assert!(p1.take() == v[1], "c02_cast_tuple_16"); assert!(p2.take() == v[2], "c02_cast_tuple_16"); assert!(p3.take() == v[3], "c02_cast_tuple_16"); assert!(p4.take() == v[4], "c02_cast_tuple_16"); assert!(p5.take() == v[5], "c02_cast_tuple_16"); assert!(p6.take() == v[6], "c02_cast_tuple_16"); assert!(p7.take() == v[7], "c02_cast_tuple_16"); assert!(p8.take() == v[8], "c02_cast_tuple_16"); assert!(p9.take() == v[9], "c02_cast_tuple_16"); assert!(p10.take() == v[10], "c02_cast_tuple_16"); assert!(p11.take() == v[11], "c02_cast_tuple_16"); assert!(p12.take() == v[12], "c02_cast_tuple_16"); assert!(p13.take() == v[13], "c02_cast_tuple_16"); assert!(p14.take() == v[14], "c02_cast_tuple_16"); assert!(p15.take() == v[15], "c02_cast_tuple_16");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[15]);
    }

    /// Casting a 17-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_17() unwind 40 {
        let v: [u16; 17] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_17"); assert!(p1.take() == v[1], "c02_cast_tuple_17"); assert!(p2.take() == v[2], "c02_cast_tuple_17"); assert!(p3.take() == v[3], "c02_cast_tuple_17"); assert!(p4.take() == v[4], "c02_cast_tuple_17"); assert!(p5.take() == v[5], "c02_cast_tuple_17"); assert!(p6.take() == v[6], "c02_cast_tuple_17"); assert!(p7.take() == v[7], "c02_cast_tuple_17"); assert!(p8.take() == v[8], "c02_cast_tuple_17"); assert!(p9.take() == v[9], "c02_cast_tuple_17"); assert!(p10.take() == v[10], "c02_cast_tuple_17"); assert!(p11.take() == v[11], "c02_cast_tuple_17"); assert!(p12.take() == v[12], "c02_cast_tuple_17"); assert!(p13.take() == v[13], "c02_cast_tuple_17"); assert!(p14.take() == v[14], "c02_cast_tuple_17"); assert!(p15.take() == v[15], "c02_cast_tuple_17"); assert!(p16.take() == v[16], "c02_cast_tuple_17");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[16]);
    }

    /// Casting a 18-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_18() unwind 40 {
        let v: [u16; 18] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_18"); assert!(p1.take() == v[1], "c02_cast_tuple_18"); assert!(p2.take() == v[2], "c02_cast_tuple_18"); assert!(p3.take() == v[3], "c02_cast_tuple_18"); assert!(p4.take() == v[4], "c02_cast_tuple_18"); assert!(p5.take() == v[5], "c02_cast_tuple_18"); assert!(p6.take() == v[6], "c02_cast_tuple_18"); assert!(p7.take() == v[7], "c02_cast_tuple_18"); assert!(p8.take() == v[8], "c02_cast_tuple_18"); assert!(p9.take() == v[9], "c02_cast_tuple_18"); assert!(p10.take() == v[10], "c02_cast_tuple_18"); assert!(p11.take() == v[11], "c02_cast_tuple_18"); assert!(p12.take() == v[12], "c02_cast_tuple_18"); assert!(p13.take() == v[13], "c02_cast_tuple_18"); assert!(p14.take() == v[14], "c02_cast_tuple_18"); assert!(p15.take() == v[15], "c02_cast_tuple_18"); assert!(p16.take() == v[16], "c02_cast_tuple_18"); assert!(p17.take() == v[17], "c02_cast_tuple_18");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[17]);
    }

    /// Casting a 19-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_19() unwind 40 {
        let v: [u16; 19] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_19"); assert!(p1.take() == v[1], "c02_cast_tuple_19"); assert!(p2.take() == v[2], "c02_cast_tuple_19"); assert!(p3.take() == v[3], "c02_cast_tuple_19"); assert!(p4.take() == v[4], "c02_cast_tuple_19"); assert!(p5.take() == v[5], "c02_cast_tuple_19"); assert!(p6.take() == v[6], "c02_cast_tuple_19"); assert!(p7.take() == v[7], "c02_cast_tuple_19"); assert!(p8.take() == v[8], "c02_cast_tuple_19"); assert!(p9.take() == v[9], "c02_cast_tuple_19"); assert!(p10.take() == v[10], "c02_cast_tuple_19"); assert!(p11.take() == v[11], "c02_cast_tuple_19"); assert!(p12.take() == v[12], "c02_cast_tuple_19"); assert!(p13.take() == v[13], "c02_cast_tuple_19"); assert!(p14.take() == v[14], "c02_cast_tuple_19"); assert!(p15.take() == v[15], "c02_cast_tuple_19"); assert!(p16.take() == v[16], "c02_cast_tuple_19"); assert!(p17.take() == v[17], "c02_cast_tuple_19"); assert!(p18.take() == v[18], "c02_cast_tuple_19");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[18]);
    }

    /// Casting a 20-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_20() unwind 40 {
        let v: [u16; 20] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_20"); assert!(p1.take() == v[1], "c02_cast_tuple_20"); assert!(p2.take() == v[2], "c02_cast_tuple_20"); assert!(p3.take() == v[3], "c02_cast_tuple_20"); assert!(p4.take() == v[4], "c02_cast_tuple_20"); assert!(p5.take() == v[5], "c02_cast_tuple_20"); assert!(p6.take() == v[6], "c02_cast_tuple_20"); assert!(p7.take() == v[7], "c02_cast_tuple_20"); assert!(p8.take() == v[8], "c02_cast_tuple_20"); assert!(p9.take() == v[9], "c02_cast_tuple_20"); assert!(p10.take() == v[10], "c02_cast_tuple_20"); assert!(p11.take() == v[11], "c02_cast_tuple_20"); assert!(p12.take() == v[12], "c02_cast_tuple_20"); assert!(p13.take() == v[13], "c02_cast_tuple_20"); assert!(p14.take() == v[14], "c02_cast_tuple_20"); assert!(p15.take() == v[15], "c02_cast_tuple_20"); assert!(p16.take() == v[16], "c02_cast_tuple_20"); assert!(p17.take() == v[17], "c02_cast_tuple_20"); assert!(p18.take() == v[18], "c02_cast_tuple_20"); assert!(p19.take() == v[19], "c02_cast_tuple_20");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[19]);
    }

    /// Casting a 21-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_21() unwind 40 {
        let v: [u16; 21] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_21"); assert!(p1.take() == v[1], "c02_cast_tuple_21"); assert!(p2.take() == v[2], "c02_cast_tuple_21"); assert!(p3.take() == v[3], "c02_cast_tuple_21"); assert!(p4.take() == v[4], "c02_cast_tuple_21"); assert!(p5.take() == v[5], "c02_cast_tuple_21"); assert!(p6.take() == v[6], "c02_cast_tuple_21"); assert!(p7.take() == v[7], "c02_cast_tuple_21"); assert!(p8.take() == v[8], "c02_cast_tuple_21"); assert!(p9.take() == v[9], "c02_cast_tuple_21"); assert!(p10.take() == v[10], "c02_cast_tuple_21"); assert!(p11.take() == v[11], "c02_cast_tuple_21"); assert!(p12.take() == v[12], "c02_cast_tuple_21"); assert!(p13.take() == v[13], "c02_cast_tuple_21"); assert!(p14.take() == v[14], "c02_cast_tuple_21"); assert!(p15.take() == v[15], "c02_cast_tuple_21"); assert!(p16.take() == v[16], "c02_cast_tuple_21"); assert!(p17.take() == v[17], "c02_cast_tuple_21"); assert!(p18.take() == v[18], "c02_cast_tuple_21"); assert!(p19.take() == v[19], "c02_cast_tuple_21"); assert!(p20.take() == v[20], "c02_cast_tuple_21");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[20]);
    }

    /// Casting a 22-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_22() unwind 40 {
        let v: [u16; 22] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_22"); assert!(p1.take() == v[1], "c02_cast_tuple_22"); assert!(p2.take() == v[2], "c02_cast_tuple_22"); assert!(p3.take() == v[3], "c02_cast_tuple_22"); assert!(p4.take() == v[4], "c02_cast_tuple_22"); assert!(p5.take() == v[5], "c02_cast_tuple_22"); assert!(p6.take() == v[6], "c02_cast_tuple_22"); assert!(p7.take() == v[7], "c02_cast_tuple_22"); assert!(p8.take() == v[8], "c02_cast_tuple_22"); assert!(p9.take() == v[9], "c02_cast_tuple_22"); assert!(p10.take() == v[10], "c02_cast_tuple_22"); assert!(p11.take() == v[11], "c02_cast_tuple_22"); assert!(p12.take() == v[12], "c02_cast_tuple_22"); assert!(p13.take() == v[13], "c02_cast_tuple_22"); assert!(p14.take() == v[14], "c02_cast_tuple_22"); assert!(p15.take() == v[15], "c02_cast_tuple_22"); assert!(p16.take() == v[16], "c02_cast_tuple_22"); assert!(p17.take() == v[17], "c02_cast_tuple_22"); assert!(p18.take() == v[18], "c02_cast_tuple_22"); assert!(p19.take() == v[19], "c02_cast_tuple_22"); assert!(p20.take() == v[20], "c02_cast_tuple_22"); assert!(p21.take() == v[21], "c02_cast_tuple_22");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[21]);
    }

    /// Casting a 23-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_23() unwind 40 {
        let v: [u16; 23] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_23"); assert!(p1.take() == v[1], "c02_cast_tuple_23"); assert!(p2.take() == v[2], "c02_cast_tuple_23"); assert!(p3.take() == v[3], "c02_cast_tuple_23"); assert!(p4.take() == v[4], "c02_cast_tuple_23"); assert!(p5.take() == v[5], "c02_cast_tuple_23"); assert!(p6.take() == v[6], "c02_cast_tuple_23"); assert!(p7.take() == v[7], "c02_cast_tuple_23"); assert!(p8.take() == v[8], "c02_cast_tuple_23"); assert!(p9.take() == v[9], "c02_cast_tuple_23"); assert!(p10.take() == v[10], "c02_cast_tuple_23"); assert!(p11.take() == v[11], "c02_cast_tuple_23"); assert!(p12.take() == v[12], "c02_cast_tuple_23"); assert!(p13.take() == v[13], "c02_cast_tuple_23"); assert!(p14.take() == v[14], "c02_cast_tuple_23"); assert!(p15.take() == v[15], "c02_cast_tuple_23"); assert!(p16.take() == v[16], "c02_cast_tuple_23"); assert!(p17.take() == v[17], "c02_cast_tuple_23"); assert!(p18.take() == v[18], "c02_cast_tuple_23"); assert!(p19.take() == v[19], "c02_cast_tuple_23"); assert!(p20.take() == v[20], "c02_cast_tuple_23"); assert!(p21.take() == v[21], "c02_cast_tuple_23"); assert!(p22.take() == v[22], "c02_cast_tuple_23");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[22]);
    }

    /// Casting a 24-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_24() unwind 40 {
        let v: [u16; 24] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_24"); assert!(p1.take() == v[1], "c02_cast_tuple_24"); assert!(p2.take() == v[2], "c02_cast_tuple_24"); assert!(p3.take() == v[3], "c02_cast_tuple_24"); assert!(p4.take() == v[4], "c02_cast_tuple_24"); assert!(p5.take() == v[5], "c02_cast_tuple_24"); assert!(p6.take() == v[6], "c02_cast_tuple_24"); assert!(p7.take() == v[7], "c02_cast_tuple_24"); assert!(p8.take() == v[8], "c02_cast_tuple_24"); assert!(p9.take() == v[9], "c02_cast_tuple_24"); assert!(p10.take() == v[10], "c02_cast_tuple_24"); assert!(p11.take() == v[11], "c02_cast_tuple_24"); assert!(p12.take() == v[12], "c02_cast_tuple_24"); assert!(p13.take() == v[13], "c02_cast_tuple_24"); assert!(p14.take() == v[14], "c02_cast_tuple_24"); assert!(p15.take() == v[15], "c02_cast_tuple_24"); assert!(p16.take() == v[16], "c02_cast_tuple_24"); assert!(p17.take() == v[17], "c02_cast_tuple_24"); assert!(p18.take() == v[18], "c02_cast_tuple_24"); assert!(p19.take() == v[19], "c02_cast_tuple_24"); assert!(p20.take() == v[20], "c02_cast_tuple_24"); assert!(p21.take() == v[21], "c02_cast_tuple_24"); assert!(p22.take() == v[22], "c02_cast_tuple_24"); assert!(p23.take() == v[23], "c02_cast_tuple_24");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[23]);
    }

    /// Casting a 25-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_25() unwind 40 {
        let v: [u16; 25] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_25"); assert!(p1.take() == v[1], "c02_cast_tuple_25"); assert!(p2.take() == v[2], "c02_cast_tuple_25"); assert!(p3.take() == v[3], "c02_cast_tuple_25"); assert!(p4.take() == v[4], "c02_cast_tuple_25"); assert!(p5.take() == v[5], "c02_cast_tuple_25"); assert!(p6.take() == v[6], "c02_cast_tuple_25"); assert!(p7.take() == v[7], "c02_cast_tuple_25"); assert!(p8.take() == v[8], "c02_cast_tuple_25"); assert!(p9.take() == v[9], "c02_cast_tuple_25"); assert!(p10.take() == v[10], "c02_cast_tuple_25"); assert!(p11.take() == v[11], "c02_cast_tuple_25"); assert!(p12.take() == v[12], "c02_cast_tuple_25"); assert!(p13.take() == v[13], "c02_cast_tuple_25"); assert!(p14.take() == v[14], "c02_cast_tuple_25"); assert!(p15.take() == v[15], "c02_cast_tuple_25"); assert!(p16.take() == v[16], "c02_cast_tuple_25"); assert!(p17.take() == v[17], "c02_cast_tuple_25"); assert!(p18.take() == v[18], "c02_cast_tuple_25"); assert!(p19.take() == v[19], "c02_cast_tuple_25"); assert!(p20.take() == v[20], "c02_cast_tuple_25"); assert!(p21.take() == v[21], "c02_cast_tuple_25"); assert!(p22.take() == v[22], "c02_cast_tuple_25"); assert!(p23.take() == v[23], "c02_cast_tuple_25"); assert!(p24.take() == v[24], "c02_cast_tuple_25");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[24]);
    }

    /// Casting a 26-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_26() unwind 40 {
        let v: [u16; 26] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24],v[25]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24,p25) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_26"); assert!(p1.take() == v[1], "c02_cast_tuple_26"); assert!(p2.take() == v[2], "c02_cast_tuple_26"); assert!(p3.take() == v[3], "c02_cast_tuple_26"); assert!(p4.take() == v[4], "c02_cast_tuple_26"); assert!(p5.take() == v[5], "c02_cast_tuple_26"); assert!(p6.take() == v[6], "c02_cast_tuple_26"); assert!(p7.take() == v[7], "c02_cast_tuple_26"); assert!(p8.take() == v[8], "c02_cast_tuple_26"); assert!(p9.take() == v[9], "c02_cast_tuple_26"); assert!(p10.take() == v[10], "c02_cast_tuple_26"); assert!(p11.take() == v[11], "c02_cast_tuple_26"); assert!(p12.take() == v[12], "c02_cast_tuple_26"); assert!(p13.take() == v[13], "c02_cast_tuple_26"); assert!(p14.take() == v[14], "c02_cast_tuple_26"); assert!(p15.take() == v[15], "c02_cast_tuple_26"); assert!(p16.take() == v[16], "c02_cast_tuple_26"); assert!(p17.take() == v[17], "c02_cast_tuple_26"); assert!(p18.take() == v[18], "c02_cast_tuple_26"); assert!(p19.take() == v[19], "c02_cast_tuple_26"); assert!(p20.take() == v[20], "c02_cast_tuple_26"); assert!(p21.take() == v[21], "c02_cast_tuple_26"); assert!(p22.take() == v[22], "c02_cast_tuple_26"); assert!(p23.take() == v[23], "c02_cast_tuple_26"); assert!(p24.take() == v[24], "c02_cast_tuple_26"); assert!(p25.take() == v[25], "c02_cast_tuple_26");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[25]);
    }

    /// Casting a 27-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_27() unwind 40 {
        let v: [u16; 27] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24],v[25],v[26]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24,p25,p26) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_27"); assert!(p1.take() == v[1], "c02_cast_tuple_27"); assert!(p2.take() == v[2], "c02_cast_tuple_27"); assert!(p3.take() == v[3], "c02_cast_tuple_27"); assert!(p4.take() == v[4], "c02_cast_tuple_27"); assert!(p5.take() == v[5], "c02_cast_tuple_27"); assert!(p6.take() == v[6], "c02_cast_tuple_27"); assert!(p7.take() == v[7], "c02_cast_tuple_27"); assert!(p8.take() == v[8], "c02_cast_tuple_27"); assert!(p9.take() == v[9], "c02_cast_tuple_27"); assert!(p10.take() == v[10], "c02_cast_tuple_27"); assert!(p11.take() == v[11], "c02_cast_tuple_27"); assert!(p12.take() == v[12], "c02_cast_tuple_27"); assert!(p13.take() == v[13], "c02_cast_tuple_27"); assert!(p14.take() == v[14], "c02_cast_tuple_27"); assert!(p15.take() == v[15], "c02_cast_tuple_27"); assert!(p16.take() == v[16], "c02_cast_tuple_27"); assert!(p17.take() == v[17], "c02_cast_tuple_27"); assert!(p18.take() == v[18], "c02_cast_tuple_27"); assert!(p19.take() == v[19], "c02_cast_tuple_27"); assert!(p20.take() == v[20], "c02_cast_tuple_27"); assert!(p21.take() == v[21], "c02_cast_tuple_27"); assert!(p22.take() == v[22], "c02_cast_tuple_27"); assert!(p23.take() == v[23], "c02_cast_tuple_27"); assert!(p24.take() == v[24], "c02_cast_tuple_27"); assert!(p25.take() == v[25], "c02_cast_tuple_27"); assert!(p26.take() == v[26], "c02_cast_tuple_27");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[26]);
    }

    /// Casting a 28-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_28() unwind 40 {
        let v: [u16; 28] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24],v[25],v[26],v[27]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24,p25,p26,p27) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_28"); assert!(p1.take() == v[1], "c02_cast_tuple_28"); assert!(p2.take() == v[2], "c02_cast_tuple_28"); assert!(p3.take() == v[3], "c02_cast_tuple_28"); assert!(p4.take() == v[4], "c02_cast_tuple_28"); assert!(p5.take() == v[5], "c02_cast_tuple_28"); assert!(p6.take() == v[6], "c02_cast_tuple_28"); assert!(p7.take() == v[7], "c02_cast_tuple_28"); assert!(p8.take() == v[8], "c02_cast_tuple_28"); assert!(p9.take() == v[9], "c02_cast_tuple_28"); assert!(p10.take() == v[10], "c02_cast_tuple_28"); assert!(p11.take() == v[11], "c02_cast_tuple_28"); assert!(p12.take() == v[12], "c02_cast_tuple_28"); assert!(p13.take() == v[13], "c02_cast_tuple_28"); assert!(p14.take() == v[14], "c02_cast_tuple_28"); assert!(p15.take() == v[15], "c02_cast_tuple_28"); assert!(p16.take() == v[16], "c02_cast_tuple_28"); assert!(p17.take() == v[17], "c02_cast_tuple_28"); assert!(p18.take() == v[18], "c02_cast_tuple_28"); assert!(p19.take() == v[19], "c02_cast_tuple_28"); assert!(p20.take() == v[20], "c02_cast_tuple_28"); assert!(p21.take() == v[21], "c02_cast_tuple_28"); assert!(p22.take() == v[22], "c02_cast_tuple_28"); assert!(p23.take() == v[23], "c02_cast_tuple_28"); assert!(p24.take() == v[24], "c02_cast_tuple_28"); assert!(p25.take() == v[25], "c02_cast_tuple_28"); assert!(p26.take() == v[26], "c02_cast_tuple_28"); assert!(p27.take() == v[27], "c02_cast_tuple_28");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[27]);
    }

    /// Casting a 29-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_29() unwind 40 {
        let v: [u16; 29] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24],v[25],v[26],v[27],v[28]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24,p25,p26,p27,p28) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_29"); assert!(p1.take() == v[1], "c02_cast_tuple_29"); assert!(p2.take() == v[2], "c02_cast_tuple_29"); assert!(p3.take() == v[3], "c02_cast_tuple_29"); assert!(p4.take() == v[4], "c02_cast_tuple_29"); assert!(p5.take() == v[5], "c02_cast_tuple_29"); assert!(p6.take() == v[6], "c02_cast_tuple_29"); assert!(p7.take() == v[7], "c02_cast_tuple_29"); assert!(p8.take() == v[8], "c02_cast_tuple_29"); assert!(p9.take() == v[9], "c02_cast_tuple_29"); assert!(p10.take() == v[10], "c02_cast_tuple_29"); assert!(p11.take() == v[11], "c02_cast_tuple_29"); assert!(p12.take() == v[12], "c02_cast_tuple_29"); assert!(p13.take() == v[13], "c02_cast_tuple_29"); assert!(p14.take() == v[14], "c02_cast_tuple_29"); assert!(p15.take() == v[15], "c02_cast_tuple_29"); assert!(p16.take() == v[16], "c02_cast_tuple_29"); assert!(p17.take() == v[17], "c02_cast_tuple_29"); assert!(p18.take() == v[18], "c02_cast_tuple_29"); assert!(p19.take() == v[19], "c02_cast_tuple_29"); assert!(p20.take() == v[20], "c02_cast_tuple_29"); assert!(p21.take() == v[21], "c02_cast_tuple_29"); assert!(p22.take() == v[22], "c02_cast_tuple_29"); assert!(p23.take() == v[23], "c02_cast_tuple_29"); assert!(p24.take() == v[24], "c02_cast_tuple_29"); assert!(p25.take() == v[25], "c02_cast_tuple_29"); assert!(p26.take() == v[26], "c02_cast_tuple_29"); assert!(p27.take() == v[27], "c02_cast_tuple_29"); assert!(p28.take() == v[28], "c02_cast_tuple_29");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[28]);
    }

    /// Casting a 30-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_30() unwind 40 {
        let v: [u16; 30] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24],v[25],v[26],v[27],v[28],v[29]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24,p25,p26,p27,p28,p29) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_30"); assert!(p1.take() == v[1], "c02_cast_tuple_30"); assert!(p2.take() == v[2], "c02_cast_tuple_30"); assert!(p3.take() == v[3], "c02_cast_tuple_30"); assert!(p4.take() == v[4], "c02_cast_tuple_30"); assert!(p5.take() == v[5], "c02_cast_tuple_30"); assert!(p6.take() == v[6], "c02_cast_tuple_30"); assert!(p7.take() == v[7], "c02_cast_tuple_30"); assert!(p8.take() == v[8], "c02_cast_tuple_30"); assert!(p9.take() == v[9], "c02_cast_tuple_30"); assert!(p10.take() == v[10], "c02_cast_tuple_30"); assert!(p11.take() == v[11], "c02_cast_tuple_30"); assert!(p12.take() == v[12], "c02_cast_tuple_30"); assert!(p13.take() == v[13], "c02_cast_tuple_30"); assert!(p14.take() == v[14], "c02_cast_tuple_30"); assert!(p15.take() == v[15], "c02_cast_tuple_30"); assert!(p16.take() == v[16], "c02_cast_tuple_30"); assert!(p17.take() == v[17], "c02_cast_tuple_30"); assert!(p18.take() == v[18], "c02_cast_tuple_30"); assert!(p19.take() == v[19], "c02_cast_tuple_30"); assert!(p20.take() == v[20], "c02_cast_tuple_30"); assert!(p21.take() == v[21], "c02_cast_tuple_30"); assert!(p22.take() == v[22], "c02_cast_tuple_30"); assert!(p23.take() == v[23], "c02_cast_tuple_30"); assert!(p24.take() == v[24], "c02_cast_tuple_30"); assert!(p25.take() == v[25], "c02_cast_tuple_30"); assert!(p26.take() == v[26], "c02_cast_tuple_30"); assert!(p27.take() == v[27], "c02_cast_tuple_30"); assert!(p28.take() == v[28], "c02_cast_tuple_30"); assert!(p29.take() == v[29], "c02_cast_tuple_30");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[29]);
    }

    /// Casting a 31-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_31() unwind 40 {
        let v: [u16; 31] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24],v[25],v[26],v[27],v[28],v[29],v[30]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24,p25,p26,p27,p28,p29,p30) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_31"); assert!(p1.take() == v[1], "c02_cast_tuple_31"); assert!(p2.take() == v[2], "c02_cast_tuple_31"); assert!(p3.take() == v[3], "c02_cast_tuple_31"); assert!(p4.take() == v[4], "c02_cast_tuple_31"); assert!(p5.take() == v[5], "c02_cast_tuple_31"); assert!(p6.take() == v[6], "c02_cast_tuple_31"); assert!(p7.take() == v[7], "c02_cast_tuple_31"); assert!(p8.take() == v[8], "c02_cast_tuple_31"); assert!(p9.take() == v[9], "c02_cast_tuple_31"); assert!(p10.take() == v[10], "c02_cast_tuple_31"); assert!(p11.take() == v[11], "c02_cast_tuple_31"); assert!(p12.take() == v[12], "c02_cast_tuple_31"); assert!(p13.take() == v[13], "c02_cast_tuple_31"); assert!(p14.take() == v[14], "c02_cast_tuple_31"); assert!(p15.take() == v[15], "c02_cast_tuple_31"); assert!(p16.take() == v[16], "c02_cast_tuple_31"); assert!(p17.take() == v[17], "c02_cast_tuple_31"); assert!(p18.take() == v[18], "c02_cast_tuple_31"); assert!(p19.take() == v[19], "c02_cast_tuple_31"); assert!(p20.take() == v[20], "c02_cast_tuple_31"); assert!(p21.take() == v[21], "c02_cast_tuple_31"); assert!(p22.take() == v[22], "c02_cast_tuple_31"); assert!(p23.take() == v[23], "c02_cast_tuple_31"); assert!(p24.take() == v[24], "c02_cast_tuple_31"); assert!(p25.take() == v[25], "c02_cast_tuple_31"); assert!(p26.take() == v[26], "c02_cast_tuple_31"); assert!(p27.take() == v[27], "c02_cast_tuple_31"); assert!(p28.take() == v[28], "c02_cast_tuple_31"); assert!(p29.take() == v[29], "c02_cast_tuple_31"); assert!(p30.take() == v[30], "c02_cast_tuple_31");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[30]);
    }

    /// Casting a 32-tuple keeps every member at its own position, in both modes.
    fn c02_cast_tuple_32() unwind 40 {
        let v: [u16; 32] = kani::any();
        let t: (u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16) = (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],v[16],v[17],v[18],v[19],v[20],v[21],v[22],v[23],v[24],v[25],v[26],v[27],v[28],v[29],v[30],v[31]);
        let (p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10,p11,p12,p13,p14,p15,p16,p17,p18,p19,p20,p21,p22,p23,p24,p25,p26,p27,p28,p29,p30,p31) = <Always<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)> as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Always::<()>::maybe_just(|| t));
        assert!(p0.take() == v[0], "c02_cast_tuple_32"); assert!(p1.take() == v[1], "c02_cast_tuple_32"); assert!(p2.take() == v[2], "c02_cast_tuple_32"); assert!(p3.take() == v[3], "c02_cast_tuple_32"); assert!(p4.take() == v[4], "c02_cast_tuple_32"); assert!(p5.take() == v[5], "c02_cast_tuple_32"); assert!(p6.take() == v[6], "c02_cast_tuple_32"); assert!(p7.take() == v[7], "c02_cast_tuple_32"); assert!(p8.take() == v[8], "c02_cast_tuple_32"); assert!(p9.take() == v[9], "c02_cast_tuple_32"); assert!(p10.take() == v[10], "c02_cast_tuple_32"); assert!(p11.take() == v[11], "c02_cast_tuple_32"); assert!(p12.take() == v[12], "c02_cast_tuple_32"); assert!(p13.take() == v[13], "c02_cast_tuple_32"); assert!(p14.take() == v[14], "c02_cast_tuple_32"); assert!(p15.take() == v[15], "c02_cast_tuple_32"); assert!(p16.take() == v[16], "c02_cast_tuple_32"); assert!(p17.take() == v[17], "c02_cast_tuple_32"); assert!(p18.take() == v[18], "c02_cast_tuple_32"); assert!(p19.take() == v[19], "c02_cast_tuple_32"); assert!(p20.take() == v[20], "c02_cast_tuple_32"); assert!(p21.take() == v[21], "c02_cast_tuple_32"); assert!(p22.take() == v[22], "c02_cast_tuple_32"); assert!(p23.take() == v[23], "c02_cast_tuple_32"); assert!(p24.take() == v[24], "c02_cast_tuple_32"); assert!(p25.take() == v[25], "c02_cast_tuple_32"); assert!(p26.take() == v[26], "c02_cast_tuple_32"); assert!(p27.take() == v[27], "c02_cast_tuple_32"); assert!(p28.take() == v[28], "c02_cast_tuple_32"); assert!(p29.take() == v[29], "c02_cast_tuple_32"); assert!(p30.take() == v[30], "c02_cast_tuple_32"); assert!(p31.take() == v[31], "c02_cast_tuple_32");
        let (Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty,Empty) = <Empty as Maybe<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>>::cast::<(u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16,u16)>(Empty);
        kani::cover!(v[0] != v[31]);
    }

    /// Casting an array of 0 keeps every member at its own position, in both modes.
    fn c02_cast_array_0() unwind 140 {
        let v: [u16; 0] = kani::any();
        let parts = <Always<[u16; 0]> as Maybe<[u16; 0]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_0");
            i += 1;
        }
        assert!(i == 0, "c02_cast_array_0_len");
        let e: [Empty; 0] = <Empty as Maybe<[u16; 0]>>::cast(Empty);
        assert!(e.len() == 0, "c02_cast_array_0_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 1 keeps every member at its own position, in both modes.
    fn c02_cast_array_1() unwind 140 {
        let v: [u16; 1] = kani::any();
        let parts = <Always<[u16; 1]> as Maybe<[u16; 1]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_1");
            i += 1;
        }
        assert!(i == 1, "c02_cast_array_1_len");
        let e: [Empty; 1] = <Empty as Maybe<[u16; 1]>>::cast(Empty);
        assert!(e.len() == 1, "c02_cast_array_1_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 2 keeps every member at its own position, in both modes.
    fn c02_cast_array_2() unwind 140 {
        let v: [u16; 2] = kani::any();
        let parts = <Always<[u16; 2]> as Maybe<[u16; 2]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_2");
            i += 1;
        }
        assert!(i == 2, "c02_cast_array_2_len");
        let e: [Empty; 2] = <Empty as Maybe<[u16; 2]>>::cast(Empty);
        assert!(e.len() == 2, "c02_cast_array_2_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 3 keeps every member at its own position, in both modes.
    fn c02_cast_array_3() unwind 140 {
        let v: [u16; 3] = kani::any();
        let parts = <Always<[u16; 3]> as Maybe<[u16; 3]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_3");
            i += 1;
        }
        assert!(i == 3, "c02_cast_array_3_len");
        let e: [Empty; 3] = <Empty as Maybe<[u16; 3]>>::cast(Empty);
        assert!(e.len() == 3, "c02_cast_array_3_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 4 keeps every member at its own position, in both modes.
    fn c02_cast_array_4() unwind 140 {
        let v: [u16; 4] = kani::any();
        let parts = <Always<[u16; 4]> as Maybe<[u16; 4]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_4");
            i += 1;
        }
        assert!(i == 4, "c02_cast_array_4_len");
        let e: [Empty; 4] = <Empty as Maybe<[u16; 4]>>::cast(Empty);
        assert!(e.len() == 4, "c02_cast_array_4_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 5 keeps every member at its own position, in both modes.
    fn c02_cast_array_5() unwind 140 {
        let v: [u16; 5] = kani::any();
        let parts = <Always<[u16; 5]> as Maybe<[u16; 5]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_5");
            i += 1;
        }
        assert!(i == 5, "c02_cast_array_5_len");
        let e: [Empty; 5] = <Empty as Maybe<[u16; 5]>>::cast(Empty);
        assert!(e.len() == 5, "c02_cast_array_5_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 7 keeps every member at its own position, in both modes.
    fn c02_cast_array_7() unwind 140 {
        let v: [u16; 7] = kani::any();
        let parts = <Always<[u16; 7]> as Maybe<[u16; 7]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_7");
            i += 1;
        }
        assert!(i == 7, "c02_cast_array_7_len");
        let e: [Empty; 7] = <Empty as Maybe<[u16; 7]>>::cast(Empty);
        assert!(e.len() == 7, "c02_cast_array_7_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 8 keeps every member at its own position, in both modes.
    fn c02_cast_array_8() unwind 140 {
        let v: [u16; 8] = kani::any();
        let parts = <Always<[u16; 8]> as Maybe<[u16; 8]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_8");
            i += 1;
        }
        assert!(i == 8, "c02_cast_array_8_len");
        let e: [Empty; 8] = <Empty as Maybe<[u16; 8]>>::cast(Empty);
        assert!(e.len() == 8, "c02_cast_array_8_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 9 keeps every member at its own position, in both modes.
    fn c02_cast_array_9() unwind 140 {
        let v: [u16; 9] = kani::any();
        let parts = <Always<[u16; 9]> as Maybe<[u16; 9]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_9");
            i += 1;
        }
        assert!(i == 9, "c02_cast_array_9_len");
        let e: [Empty; 9] = <Empty as Maybe<[u16; 9]>>::cast(Empty);
        assert!(e.len() == 9, "c02_cast_array_9_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 16 keeps every member at its own position, in both modes.
    fn c02_cast_array_16() unwind 140 {
        let v: [u16; 16] = kani::any();
        let parts = <Always<[u16; 16]> as Maybe<[u16; 16]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_16");
            i += 1;
        }
        assert!(i == 16, "c02_cast_array_16_len");
        let e: [Empty; 16] = <Empty as Maybe<[u16; 16]>>::cast(Empty);
        assert!(e.len() == 16, "c02_cast_array_16_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 17 keeps every member at its own position, in both modes.
    fn c02_cast_array_17() unwind 140 {
        let v: [u16; 17] = kani::any();
        let parts = <Always<[u16; 17]> as Maybe<[u16; 17]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_17");
            i += 1;
        }
        assert!(i == 17, "c02_cast_array_17_len");
        let e: [Empty; 17] = <Empty as Maybe<[u16; 17]>>::cast(Empty);
        assert!(e.len() == 17, "c02_cast_array_17_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 31 keeps every member at its own position, in both modes.
    fn c02_cast_array_31() unwind 140 {
        let v: [u16; 31] = kani::any();
        let parts = <Always<[u16; 31]> as Maybe<[u16; 31]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_31");
            i += 1;
        }
        assert!(i == 31, "c02_cast_array_31_len");
        let e: [Empty; 31] = <Empty as Maybe<[u16; 31]>>::cast(Empty);
        assert!(e.len() == 31, "c02_cast_array_31_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 32 keeps every member at its own position, in both modes.
    fn c02_cast_array_32() unwind 140 {
        let v: [u16; 32] = kani::any();
        let parts = <Always<[u16; 32]> as Maybe<[u16; 32]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_32");
            i += 1;
        }
        assert!(i == 32, "c02_cast_array_32_len");
        let e: [Empty; 32] = <Empty as Maybe<[u16; 32]>>::cast(Empty);
        assert!(e.len() == 32, "c02_cast_array_32_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 33 keeps every member at its own position, in both modes.
    fn c02_cast_array_33() unwind 140 {
        let v: [u16; 33] = kani::any();
        let parts = <Always<[u16; 33]> as Maybe<[u16; 33]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_33");
            i += 1;
        }
        assert!(i == 33, "c02_cast_array_33_len");
        let e: [Empty; 33] = <Empty as Maybe<[u16; 33]>>::cast(Empty);
        assert!(e.len() == 33, "c02_cast_array_33_empty_len");
        kani::cover!(true);
    }

    /// Casting an array of 64 keeps every member at its own position, in both modes.
    fn c02_cast_array_64() unwind 140 {
        let v: [u16; 64] = kani::any();
        let parts = <Always<[u16; 64]> as Maybe<[u16; 64]>>::cast(Always::<()>::maybe_just(|| v));
        let mut i = 0;
        for p in parts {
            assert!(p.take() == v[i], "c02_cast_array_64");
            i += 1;
        }
        assert!(i == 64, "c02_cast_array_64_len");
        let e: [Empty; 64] = <Empty as Maybe<[u16; 64]>>::cast(Empty);
        assert!(e.len() == 64, "c02_cast_array_64_empty_len");
        kani::cover!(true);
    }
}
