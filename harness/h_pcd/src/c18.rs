//! Contracts of header encoding, suffixes, fixed-length vectors and registration.
use crate::Rng;
use ff::Field;
use ragu_circuits::polynomials::R;
use ragu_core::drivers::emulator::{Emulator, Wireless};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::{Always, Empty, Maybe};
use ragu_core::{Error, Result};
use ragu_pasta::Pasta;
use ragu_pcd::ApplicationBuilder;
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::verif as hook;
use ragu_primitives::io::Write;
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_primitives::{Boolean, Element};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vcd::{Contract, Model, Vc, contract, explore, just};

type Fp = pasta_curves::Fp;
type El<M> = Element<'static, Vc<M>>;
fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// A header of K elements.
struct Flat<const K: usize>;
impl<F: Field, const K: usize> Header<F> for Flat<K> {
    const SUFFIX: Suffix = Suffix::new(700 + K);
    type Data = Vec<F>;
    type Output = Kind![F; FixedVec<Element<'_, _>, ConstLen<K>>];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, Self::Output>> {
        FixedVec::try_from_fn(|i| Element::alloc(dr, w.as_ref().map(|v| v[i])))
    }
}
/// A header of a pair, a bit and nothing.
struct Mixed;
impl<F: Field> Header<F> for Mixed {
    const SUFFIX: Suffix = Suffix::new(usize::MAX / 2);
    type Data = (F, F, bool);
    type Output = Kind![F; ((Element<'_, _>, Boolean<'_, _>), ((), Element<'_, _>))];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, Self::Data>) -> Result<Bound<'dr, D, Self::Output>> {
        let (a, b, c) = w.cast();
        Ok(((Element::alloc(dr, a)?, Boolean::alloc(dr, c)?), ((), Element::alloc(dr, b)?)))
    }
}
/// A header whose elements are not allocated: constants and sums.
struct Derived;
impl<F: Field> Header<F> for Derived {
    const SUFFIX: Suffix = Suffix::new(usize::MAX - 2);
    type Data = F;
    type Output = Kind![F; (Element<'_, _>, (Element<'_, _>, Element<'_, _>))];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
        let x = Element::alloc(dr, w)?;
        let k = Element::constant(dr, F::ONE.double());
        let s = x.add(dr, &k);
        Ok((x, (k, s)))
    }
}
fn data<M: Model, const K: usize>() -> Vec<M> {
    (0..K).map(|_| M::input("d")).collect()
}

fn same<M: Model>(got: &[El<M>], want: &[El<M>], what: &str) {
    for (g, w) in got.iter().zip(want) {
        M::check_eq(g.wire().h, w.wire().h, what);
        M::check_adv_eq(g.wire().adv, w.wire().adv, what);
        M::check_eq(*g.value().take(), g.wire().h, "wire: value and wire agree");
    }
}
fn known<M: Model>(got: &El<M>, want: M, what: &str) {
    M::check_eq(got.wire().h, want, what);
    M::check_adv_eq(got.wire().adv, want, what);
    M::check_eq(*got.value().take(), want, what);
}
fn laid_out<M: Model, H: Header<M>, const N: usize>(r: Result<()>, buf: &[El<M>], raw: &[El<M>]) {
    let fits = raw.len() < N;
    match r {
        Ok(()) => {
            M::check(fits, "a header that does not fit is refused");
            M::check(buf.len() == N, "a header takes exactly the configured number of elements");
            if buf.len() != N || !fits {
                return;
            }
            same(buf, raw, "a header starts with its own elements in order");
            for z in &buf[raw.len()..N - 1] {
                known(z, M::ZERO, "unused elements are zero");
            }
            known(&buf[N - 1], M::from(hook::suffix(&H::SUFFIX)), "the last element is the suffix");
        }
        Err(e) => {
            M::check(!fits, "a header that fits is encoded");
            M::check(matches!(e, Error::MalformedEncoding(_)), "a header that does not fit is a malformed encoding");
        }
    }
}
/// The three ways to encode, at one width.
fn widths<M: Model, H: Header<M>, const N: usize>(d: &H::Data) {
    let dr = &mut Vc::<M>::new();
    let g = H::encode(dr, just(d.clone())).unwrap();
    let mut raw: Vec<El<M>> = vec![];
    <H::Output as Write<M>>::write_gadget(&g, dr, &mut raw).unwrap();

    let mut buf = vec![];
    let r = hook::padded_write::<H, N, _, _>(dr, g.clone(), &mut buf);
    laid_out::<M, H, N>(r, &buf, &raw);

    let e = Encoded::<'static, Vc<M>, H, N>::from_gadget(g.clone());
    let mut again: Vec<El<M>> = vec![];
    <H::Output as Write<M>>::write_gadget(e.as_gadget(), dr, &mut again).unwrap();
    M::check(again.len() == raw.len(), "an encoded header gives back its gadget");
    same(&again, &raw, "an encoded header gives back its gadget");
    let mut buf = vec![];
    let r = hook::encoded_write(e.clone(), dr, &mut buf);
    laid_out::<M, H, N>(r, &buf, &raw);
    // written after something else, the header does not disturb it
    let mut buf = vec![Element::constant(dr, M::from(77))];
    if hook::encoded_write(e, dr, &mut buf).is_ok() {
        known(&buf[0], M::from(77), "writing a header appends");
        laid_out::<M, H, N>(Ok(()), &buf[1..], &raw);
    }

    let mut buf = vec![];
    let e = Encoded::<'static, Vc<M>, H, N>::new(dr, just(d.clone())).unwrap();
    let r = hook::encoded_write(e, dr, &mut buf);
    values::<M, H, N>(r, &buf, &raw, "new");

    // uniform: the same values, at wires that no one has constrained yet
    let (gates, cons) = (dr.gates, dr.constraints);
    let allocs = dr.allocs;
    let mut buf = vec![];
    let r = hook::encoded_uniform::<_, H, N>(dr, just(d.clone())).and_then(|e| hook::encoded_write(e, dr, &mut buf));
    let ok = r.is_ok();
    values::<M, H, N>(r, &buf, &raw, "uniform");
    if ok {
        M::check(dr.gates == gates && dr.constraints == cons && dr.allocs == allocs + N, "uniform: every header costs the same, one wire per element");
    }
}
fn values<M: Model, H: Header<M>, const N: usize>(r: Result<()>, buf: &[El<M>], raw: &[El<M>], how: &str) {
    let fits = raw.len() < N;
    M::check(r.is_ok() == fits, &format!("{how}: a header is refused exactly if it does not fit"));
    if let Err(e) = r {
        M::check(matches!(e, Error::MalformedEncoding(_)), &format!("{how}: a header that does not fit is a malformed encoding"));
        return;
    }
    M::check(buf.len() == N, &format!("{how}: exactly the configured number of elements"));
    if buf.len() != N || !fits {
        return;
    }
    let mut want: Vec<M> = raw.iter().map(|e| e.wire().h).collect();
    want.resize(N - 1, M::ZERO);
    want.push(M::from(hook::suffix(&H::SUFFIX)));
    for (g, w) in buf.iter().zip(want) {
        M::check_eq(g.wire().h, w, &format!("{how}: elements, zeros, suffix"));
        M::check_eq(*g.value().take(), w, &format!("{how}: elements, zeros, suffix"));
    }
}
fn all_widths<M: Model, H: Header<M>>(d: H::Data) {
    widths::<M, H, 1>(&d);
    widths::<M, H, 2>(&d);
    widths::<M, H, 3>(&d);
    widths::<M, H, 4>(&d);
    widths::<M, H, 5>(&d);
    widths::<M, H, 6>(&d);
    widths::<M, H, 9>(&d);
    widths::<M, H, 16>(&d);
}
fn flat<M: Model>() {
    all_widths::<M, Flat<0>>(data::<M, 0>());
    all_widths::<M, Flat<1>>(data::<M, 1>());
    all_widths::<M, Flat<2>>(data::<M, 2>());
    all_widths::<M, Flat<3>>(data::<M, 3>());
    all_widths::<M, Flat<4>>(data::<M, 4>());
    all_widths::<M, Flat<5>>(data::<M, 5>());
    all_widths::<M, Flat<8>>(data::<M, 8>());
    all_widths::<M, Flat<15>>(data::<M, 15>());
    all_widths::<M, Flat<16>>(data::<M, 16>());
}
fn structured<M: Model>() {
    all_widths::<M, ()>(());
    all_widths::<M, Mixed>((M::input("a"), M::input("b"), M::flip("c")));
    all_widths::<M, Derived>(M::input("x"));
}
/// Where there is no witness, encoding neither fails nor asks for one.
fn absent() {
    fn one<H: Header<Fp>, const N: usize>(fits: bool) {
        let dr: &mut Emulator<Wireless<Empty, Fp>> = &mut Emulator::counter();
        let mut n = vec![];
        let r = Encoded::<_, H, N>::new(dr, Empty).and_then(|e| hook::encoded_write(e, dr, &mut n));
        Fp::check(r.is_ok() == fits && (!fits || n.len() == N), "without a witness: refused exactly if it does not fit");
        let mut n = vec![];
        let r = hook::encoded_uniform::<_, H, N>(dr, Empty).and_then(|e| hook::encoded_write(e, dr, &mut n));
        Fp::check(r.is_ok() == fits && (!fits || n.len() == N), "without a witness: refused exactly if it does not fit");
    }
    one::<Flat<3>, 3>(false);
    one::<Flat<3>, 4>(true);
    one::<Flat<0>, 1>(true);
    one::<(), 1>(true);
    one::<Mixed, 3>(false);
    one::<Mixed, 4>(true);
    one::<Derived, 9>(true);
}

fn suffixes() {
    let r = &mut Rng::chosen::<Fp>();
    let top = usize::MAX;
    let mut v: Vec<usize> = (0..20).collect();
    for b in [8u32, 16, 31, 32, 33, 53, 62, 63] {
        v.extend((0..5).map(|i| (1usize << b) - 2 + i));
    }
    v.extend((0..20).map(|i| top - i));
    v.extend((0..40).map(|_| (r.next() >> r.below(64)) as usize));
    v.sort();
    v.dedup();
    let reserved: Vec<u64> = vec![hook::suffix(&hook::internal_suffix(0)), hook::suffix(&hook::internal_suffix(1))];
    Fp::check(reserved[0] != reserved[1], "reserved suffixes are distinct");
    Fp::check(refuses(|| hook::internal_suffix(2)), "there are no further reserved suffixes");
    let got: Vec<(usize, Option<u64>)> = v.iter().map(|x| (*x, catch_unwind(|| Suffix::new(*x)).ok().map(|s| match catch_unwind(|| hook::suffix(&s)) {
        Ok(e) => e,
        // without overflow checks it would have wrapped around
        Err(_) => (*x as u64).wrapping_add(reserved.len() as u64),
    }))).collect();
    let mut els: std::collections::BTreeMap<u64, usize> = Default::default();
    for (x, e) in &got {
        match e {
            None => Fp::check(*x > top - reserved.len(), &format!("suffix {x} is accepted")),
            Some(e) => {
                Fp::check(!reserved.contains(e), &format!("suffix {x} does not yield a reserved element"));
                let other = els.insert(*e, *x);
                Fp::check(other.is_none(), &format!("suffix {x} and {other:?} yield distinct elements"));
            }
        }
    }
    Fp::check(hook::suffix(&<() as Header<Fp>>::SUFFIX) == reserved[1], "the empty header's suffix is a reserved one");
    // the u64 of a suffix is a field element of its own
    let (a, b) = (r.next(), r.next());
    Fp::check((Fp::from(a) == Fp::from(b)) == (a == b) && Fp::from(u64::MAX) != Fp::ZERO, "distinct numbers are distinct elements");
}

fn vectors() {
    fn one<const L: usize>(r: &mut Rng) {
        for n in 0..8usize {
            let v: Vec<u64> = (0..n).map(|_| r.next()).collect();
            let ok = |x: Result<FixedVec<u64, ConstLen<L>>>, what: &str| match x {
                Ok(f) => {
                    Fp::check(n == L, &format!("{what}: a vector of another length is refused"));
                    Fp::check(f.len() == L && f[..] == v[..] && f.clone()[..] == v[..] && f.clone().into_iter().collect::<Vec<_>>() == v && f.into_inner() == v, &format!("{what}: holds the given items in order"));
                }
                Err(e) => {
                    Fp::check(n != L, &format!("{what}: a vector of the declared length is accepted"));
                    Fp::check(matches!(e, Error::VectorLengthMismatch { expected, actual } if expected == L && actual == n), &format!("{what}: the error names the expected and the actual length"));
                }
            };
            ok(FixedVec::new(v.clone()), "new");
            ok(FixedVec::try_from(v.clone()), "try_from");
            let mut spare = Vec::with_capacity(32);
            spare.extend(v.iter().copied());
            ok(FixedVec::try_from(spare), "try_from");
            ok(v.iter().copied().collect_fixed(), "collect_fixed");
            // an iterator whose size is not known in advance
            ok(v.iter().copied().filter(|_| true).collect_fixed(), "collect_fixed");
            ok(v.iter().map(|x| Ok(*x)).try_collect_fixed(), "try_collect_fixed");
            for bad in 0..n {
                let r: Result<FixedVec<u64, ConstLen<L>>> = v.iter().enumerate().map(|(i, x)| if i == bad { Err(Error::InvalidWitness("mine".into())) } else { Ok(*x) }).try_collect_fixed();
                Fp::check(matches!(r, Err(Error::InvalidWitness(_))), "try_collect_fixed: an item's error is returned");
            }
        }
        let salt = r.next();
        let mut calls = vec![];
        let f: FixedVec<u64, ConstLen<L>> = FixedVec::from_fn(|i| {
            calls.push(i);
            i as u64 ^ salt
        });
        Fp::check(calls == (0..L).collect::<Vec<_>>() && f.len() == L && f.iter().enumerate().all(|(i, x)| *x == i as u64 ^ salt), "from_fn: one call per position, in order");
        let f: Result<FixedVec<u64, ConstLen<L>>> = FixedVec::try_from_fn(|i| Ok(i as u64 ^ salt));
        Fp::check(f.is_ok_and(|f| f.len() == L && f.iter().enumerate().all(|(i, x)| *x == i as u64 ^ salt)), "try_from_fn: one call per position, in order");
        for bad in 0..L {
            let f: Result<FixedVec<u64, ConstLen<L>>> = FixedVec::try_from_fn(|i| if i == bad { Err(Error::InvalidWitness("mine".into())) } else { Ok(0) });
            Fp::check(matches!(f, Err(Error::InvalidWitness(_))), "try_from_fn: an item's error is returned");
        }
        Fp::check(ConstLen::<L>::range() == (0..L) && ConstLen::<L>::len() == L && hook::TripleConstLen::<L>::len() == 3 * L, "declared lengths");
        Fp::check(<hook::fold_revdot::NumErrorTerms<ConstLen<L>> as Len>::len() == (0..L).flat_map(|i| (0..L).map(move |j| (i, j))).filter(|(i, j)| i != j).count(), "declared lengths");
    }
    let r = &mut Rng::chosen::<Fp>();
    one::<0>(r);
    one::<1>(r);
    one::<2>(r);
    one::<3>(r);
    one::<5>(r);
    one::<6>(r);
}

fn indices() {
    let r = &mut Rng::chosen::<Fp>();
    let mut v: Vec<usize> = (0..12).collect();
    v.extend([1 << 16, (1 << 32) - 1, 1 << 32, usize::MAX - 1, usize::MAX]);
    v.extend((0..8).map(|_| (r.next() >> r.below(64)) as usize));
    for a in &v {
        for b in &v {
            let x = hook::assert_index(&Index::new(*a), *b);
            Fp::check(x.is_ok() == (a == b), &format!("step {a} registered at position {b}: accepted exactly if in order"));
            if let Err(e) = x {
                Fp::check(matches!(e, Error::Initialization(_)), "a step out of order is an initialization error");
            }
        }
    }
    for steps in [0usize, 1, 2, 3, 10, 700] {
        let mut seen: Vec<_> = (0..hook::NUM_INTERNAL_STEPS).map(|i| hook::internal_circuit_index(i, steps).unwrap()).collect();
        Fp::check(hook::NUM_INTERNAL_STEPS == 2, "internal steps");
        for a in (0..steps + 3).chain(v.iter().copied()) {
            match hook::circuit_index(&Index::new(a), steps) {
                Ok(c) if a < steps => {
                    if !seen.contains(&c) || a >= 12 {
                        seen.push(c);
                    } else {
                        Fp::check(v[..12].contains(&a) && seen[hook::NUM_INTERNAL_STEPS + a] == c, &format!("step {a} of {steps} has a circuit of its own"));
                    }
                }
                Ok(_) => Fp::check(false, &format!("step {a} of {steps} is refused")),
                Err(e) => Fp::check(a >= steps && matches!(e, Error::Initialization(_)), &format!("step {a} of {steps} has a circuit")),
            }
        }
    }
}

// ---- registration

/// Header type T with suffix S.
struct Hd<const T: usize, const S: usize>;
impl<const T: usize, const S: usize> Header<Fp> for Hd<T, S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}
struct St<const I: usize, L, Rt, O>(std::marker::PhantomData<fn() -> (L, Rt, O)>);
impl<const I: usize, L: Header<Fp, Data = Fp>, Rt: Header<Fp, Data = Fp>, O: Header<Fp, Data = Fp>> Step<Pasta> for St<I, L, Rt, O> {
    const INDEX: Index = Index::new(I);
    type Witness<'s> = Fp;
    type Aux<'s> = ();
    type Left = L;
    type Right = Rt;
    type Output = O;
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
        &self,
        dr: &mut D,
        w: DriverValue<D, Fp>,
        l: DriverValue<D, Fp>,
        r: DriverValue<D, Fp>,
    ) -> Result<((Encoded<'dr, D, L, N>, Encoded<'dr, D, Rt, N>, Encoded<'dr, D, O, N>), DriverValue<D, Fp>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let d = Maybe::clone(&w);
        Ok(((Encoded::new(dr, l)?, Encoded::new(dr, r)?, Encoded::new(dr, w)?), d, D::unit()))
    }
}
type App = ApplicationBuilder<'static, Pasta, R<13>, 4>;
type Reg = fn(App) -> Result<App>;
fn reg<const I: usize, L: Header<Fp, Data = Fp>, Rt: Header<Fp, Data = Fp>, O: Header<Fp, Data = Fp>>(a: App) -> Result<App> {
    a.register(St::<I, L, Rt, O>(std::marker::PhantomData))
}
/// Header types: (type, suffix).
const HEADERS: [(usize, usize); 4] = [(0, 5), (1, 5), (2, 6), (3, 5 + (1 << 32))];
fn table<const I: usize>() -> Vec<(usize, [usize; 3], Reg)> {
    type A = Hd<0, 5>;
    type B = Hd<1, 5>;
    type C = Hd<2, 6>;
    type E = Hd<3, { 5 + (1 << 32) }>;
    let mut v: Vec<(usize, [usize; 3], Reg)> = vec![];
    macro_rules! outs { ($l:ident $i:literal $r:ident $j:literal) => {
        v.push((I, [$i, $j, 0], reg::<I, $l, $r, A>));
        v.push((I, [$i, $j, 1], reg::<I, $l, $r, B>));
        v.push((I, [$i, $j, 2], reg::<I, $l, $r, C>));
        v.push((I, [$i, $j, 3], reg::<I, $l, $r, E>));
    } }
    macro_rules! rights { ($l:ident $i:literal) => { outs!($l $i A 0); outs!($l $i B 1); outs!($l $i C 2); outs!($l $i E 3); } }
    rights!(A 0);
    rights!(B 1);
    rights!(C 2);
    rights!(E 3);
    v
}
fn registration() {
    let r = &mut Rng::chosen::<Fp>();
    let t = [table::<0>(), table::<1>(), table::<2>()];
    for _ in 0..12 {
        let mut app = App::new();
        let mut count = 0;
        let mut map: std::collections::BTreeMap<usize, usize> = Default::default();
        for pos in 0..4usize {
            // mostly in order, mostly headers seen before
            let idx = if r.below(8) == 0 { r.below(3) } else { pos % 3 };
            let pick = if r.below(3) > 0 && !map.is_empty() {
                let known: Vec<usize> = map.values().copied().chain([2]).collect();
                let want: Vec<usize> = (0..3).map(|_| known[r.below(known.len())]).collect();
                let mut want = [want[0], want[1], want[2]];
                if r.below(3) == 0 {
                    want[r.below(3)] = r.below(4);
                }
                t[idx].iter().find(|x| x.1 == want).unwrap()
            } else {
                &t[idx][r.below(64)]
            };
            let (i, hs, f) = pick;
            let mut next = map.clone();
            let mut clash = false;
            for h in [hs[2], hs[0], hs[1]] {
                let (ty, suffix) = HEADERS[h];
                clash |= *next.entry(suffix).or_insert(ty) != ty;
            }
            let ok = *i == count && !clash;
            match f(app) {
                Ok(a) => {
                    Fp::check(*i == count, &format!("step {i} registered after {count} others is refused"));
                    Fp::check(!clash, "two header types with one suffix are refused");
                    app = a;
                    count += 1;
                    map = next;
                }
                Err(e) => {
                    Fp::check(!ok, "a step in order whose headers do not clash is accepted");
                    Fp::check(matches!(e, Error::Initialization(_)), "a refused step is an initialization error");
                    break;
                }
            }
        }
    }
}

/// The circuit wrapping a step outputs its left, right and output header, in this order.
fn adapter() {
    fn one<L: Header<Fp, Data = Fp>, Rt: Header<Fp, Data = Fp>, O: Header<Fp, Data = Fp>, const N: usize>() {
        let (l, r, w) = (Fp::input("l"), Fp::input("r"), Fp::input("w"));
        let dr = &mut Vc::<Fp>::new();
        let step = || St::<0, L, Rt, O>(std::marker::PhantomData);
        let x = hook::adapter_witness::<Pasta, _, R<13>, N, _>(step(), dr, just((l, r, w)));
        let Ok((out, aux)) = x else {
            Fp::check(N < 2, "a step whose headers fit is wrapped");
            return;
        };
        let head = |x: Fp, s: Suffix| {
            let mut v = vec![x];
            v.resize(N - 1, Fp::ZERO);
            v.push(Fp::from(hook::suffix(&s)));
            v
        };
        let (hl, hr, ho) = (head(l, L::SUFFIX), head(r, Rt::SUFFIX), head(w, O::SUFFIX));
        let got: Vec<Fp> = out.iter().map(|e| *e.value().take()).collect();
        Fp::check(got == [&hl[..], &hr[..], &ho[..]].concat(), "a step's circuit outputs its left, right and output header");
        let (al, ar, d) = aux.take();
        Fp::check(al == hl && ar == hr, "a step's circuit reports the headers of its inputs");
        Fp::check(d == w, "a step's circuit reports the data it computed");
        let dr: &mut Emulator<Wireless<Always<()>, Fp>> = &mut Emulator::execute();
        let (out, _) = hook::adapter_witness::<Pasta, _, R<13>, N, _>(step(), dr, just((l, r, w))).unwrap();
        Fp::check(out.iter().map(|e| *e.value().take()).collect::<Vec<Fp>>() == got, "a step's circuit outputs the same on another driver");
    }
    one::<Hd<0, 5>, Hd<1, 5>, Hd<2, 6>, 2>();
    one::<Hd<0, 5>, Hd<1, 7>, Hd<2, 6>, 3>();
    one::<Hd<2, 6>, Hd<1, 7>, Hd<0, 5>, 4>();
    one::<Hd<2, 6>, Hd<1, 7>, Hd<0, 5>, 1>();
}

pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C18", "headers of n elements", "Padded, PaddedContent, CountingBuffer, WithSuffix, Encoded::{from_gadget,new,new_uniform,write,as_gadget}", flat, bound "0..=16 elements, header sizes 1..=6, 9 and 16; all values", weight 20);
    contract!(v, "C18", "structured headers", "Padded, PaddedContent, CountingBuffer, WithSuffix, Encoded::{from_gadget,new,new_uniform,write,as_gadget}", structured, bound "tuples, booleans, constants and sums, header sizes 1..=6, 9 and 16; all values", weight 20);
    explore!(v, "C18", "headers without a witness", "Encoded::{new,new_uniform,write}", absent, bound "ground: seven headers and sizes");
    explore!(v, "C18", "suffix elements", "header::Suffix", suffixes, bound "boundary and random values, all pairs (all values: Kani)", weight 30);
    explore!(v, "C18", "fixed-length vectors", "FixedVec::{new,try_from,from_fn,try_from_fn,into_inner}, CollectFixed", vectors, bound "declared lengths 0,1,2,3,5,6 and actual lengths 0..8", weight 20);
    explore!(v, "C18", "step indices", "step::Index", indices, bound "boundary and random indices, all pairs", weight 20);
    explore!(v, "C18", "registration", "ApplicationBuilder::{register,prevent_duplicate_suffixes}", registration, bound "sequences of up to four steps over four header types and three suffixes", weight 40);
    explore!(v, "C18", "wrapped steps", "step::internal::adapter::Adapter", adapter, bound "header sizes 1..=4", weight 20);
}
