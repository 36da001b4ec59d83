//! C17: generated and provided gadget implementations, over a catalogue of shapes, on a driver whose wires are labels.
//! The implementations are generic in the driver, so they cannot inspect a wire: one run with distinct labels
//! determines what they do for every driver and every assignment.
pub use ff::Field;
pub use pasta_curves::Fp;
pub use ragu_arithmetic::Coeff;
pub use ragu_core::convert::{CloneWires, StripWires, WireMap};
pub use ragu_core::drivers::emulator::{Emulator, Wired, Wireless};
pub use ragu_core::drivers::{Driver, DriverTypes, DriverValue, LinearExpression};
pub use ragu_core::gadgets::{Bound, Gadget, GadgetKind, Kind};
pub use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
pub use ragu_core::{Error, Result};
pub use ragu_primitives::consistent::Consistent;
pub use ragu_primitives::io::{Buffer, Pipe, Write};
pub use ragu_primitives::promotion::Demoted;
pub use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
pub use ragu_primitives::{Boolean, Element, GadgetExt};
pub use std::marker::PhantomData;
use vcd::explore;

pub type El = Kind![Fp; @Element<'_, _>];
pub type Bo = Kind![Fp; @Boolean<'_, _>];

/// What one field (or nested leaf) of a gadget holds.
#[derive(Clone, Debug, PartialEq)]
pub struct Leaf<W> {
    pub wire: Option<W>,
    pub value: Option<u64>,
    pub written: bool,
    pub boolean: bool,
}
impl<W: Clone> Leaf<W> {
    pub fn wire(w: &W) -> Self {
        Leaf { wire: Some(w.clone()), value: None, written: false, boolean: false }
    }
    pub fn val(value: Option<u64>) -> Self {
        Leaf { wire: None, value, written: false, boolean: false }
    }
}
/// A gadget type of known content.
pub trait Shape: GadgetKind<Fp> + Write<Fp> {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>>;
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>);
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()>;
}
pub trait Visit {
    fn shape<K: Shape>(&mut self, name: &str)
    where
        Self: Sized;
}
pub fn rd<T: Send>(v: impl Maybe<T>) -> Option<T> {
    let mut o = None;
    v.map(|x| {
        o = Some(x);
    });
    o
}
pub fn next(n: &mut u64) -> u64 {
    *n += 1;
    *n
}
pub fn wire<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<D::Wire> {
    let x = next(n);
    dr.alloc(|| Ok(Coeff::Arbitrary(Fp::from(x))))
}
pub fn val<'dr, D: Driver<'dr>>(n: &mut u64) -> DriverValue<D, u64> {
    let x = next(n);
    D::just(|| x)
}
pub fn skipped<W>(o: &mut Vec<Leaf<W>>, f: impl FnOnce(&mut Vec<Leaf<W>>)) {
    let k = o.len();
    f(o);
    o[k..].iter_mut().for_each(|l| l.written = false);
}
fn low(x: &Fp) -> u64 {
    use ff::PrimeField;
    u64::from_le_bytes(x.to_repr().as_ref()[..8].try_into().unwrap())
}
impl Shape for El {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        let x = next(n);
        Element::alloc(dr, D::just(|| Fp::from(x)))
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf { wire: Some(g.wire().clone()), value: rd(g.value().map(low)), written: true, boolean: false })
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        g.enforce_consistent(dr)
    }
}
impl Shape for Bo {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        let x = next(n) % 3 == 0;
        Boolean::alloc(dr, D::just(|| x))
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf { wire: Some(g.wire().clone()), value: rd(g.value().map(|b| b as u64)), written: true, boolean: true })
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        g.enforce_consistent(dr)
    }
}
impl Shape for () {
    fn build<'dr, D: Driver<'dr, F = Fp>>(_: &mut D, _: &mut u64) -> Result<()> {
        Ok(())
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(_: &(), _: &mut Vec<Leaf<D::Wire>>) {}
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &(), dr: &mut D) -> Result<()> {
        g.enforce_consistent(dr)
    }
}
/// A gadget whose consistency answers through `Shape`, so that the provided containers' own enforce_consistent can be
/// called on contents that are only known by their kind.
pub struct Via<'dr, D: Driver<'dr, F = Fp>, K: Shape>(Bound<'dr, D, K>);
impl<'dr, D: Driver<'dr, F = Fp>, K: Shape> Clone for Via<'dr, D, K> {
    fn clone(&self) -> Self {
        Via(self.0.clone())
    }
}
pub struct ViaKind<K>(PhantomData<K>);
unsafe impl<K: Shape> GadgetKind<Fp> for ViaKind<K> {
    type Rebind<'dr, D: Driver<'dr, F = Fp>> = Via<'dr, D, K>;
    fn map_gadget<'src, 'dst, WM: WireMap<Fp, Src: Driver<'src, F = Fp>, Dst: Driver<'dst, F = Fp>>>(
        this: &Bound<'src, WM::Src, Self>,
        wm: &mut WM,
    ) -> Result<Bound<'dst, WM::Dst, Self>> {
        Ok(Via(K::map_gadget(&this.0, wm)?))
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = Fp>, D2: Driver<'dr, F = Fp, Wire = <D1 as Driver<'dr>>::Wire>>(
        dr: &mut D1,
        a: &Bound<'dr, D2, Self>,
        b: &Bound<'dr, D2, Self>,
    ) -> Result<()> {
        K::enforce_equal_gadget(dr, &a.0, &b.0)
    }
}
impl<'dr, D: Driver<'dr, F = Fp>, K: Shape> Gadget<'dr, D> for Via<'dr, D, K> {
    type Kind = ViaKind<K>;
}
impl<'dr, D: Driver<'dr, F = Fp>, K: Shape> Consistent<'dr, D> for Via<'dr, D, K> {
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        K::consistent(&self.0, dr)
    }
}
impl<K: Shape, const N: usize> Shape for [PhantomData<K>; N] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        let v = (0..N).map(|_| K::build(dr, n)).collect::<Result<Vec<_>>>()?;
        Ok(v.try_into().unwrap_or_else(|_| unreachable!()))
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        g.iter().for_each(|g| K::flat::<D>(g, o))
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        std::array::from_fn::<_, N, _>(|i| Via::<D, K>(g[i].clone())).enforce_consistent(dr)
    }
}
impl<A: Shape, B: Shape> Shape for (PhantomData<A>, PhantomData<B>) {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok((A::build(dr, n)?, B::build(dr, n)?))
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        A::flat::<D>(&g.0, o);
        B::flat::<D>(&g.1, o)
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        (Via::<D, A>(g.0.clone()), Via::<D, B>(g.1.clone())).enforce_consistent(dr)
    }
}
impl<K: Shape> Shape for PhantomData<Box<K>> {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(Box::new(K::build(dr, n)?))
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        K::flat::<D>(g, o)
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Box::new(Via::<D, K>((**g).clone())).enforce_consistent(dr)
    }
}
impl<K: Shape, L: Len> Shape for FixedVec<PhantomData<K>, L> {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        (0..L::len()).map(|_| K::build(dr, n)).try_collect_fixed()
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        g.iter().for_each(|g| K::flat::<D>(g, o))
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        FixedVec::<_, L>::new(g.iter().map(|g| Via::<D, K>(g.clone())).collect())?.enforce_consistent(dr)
    }
}

/// Nested in the generated shapes.
#[derive(Gadget, Write, Consistent)]
pub struct Inner<'dr, D: Driver<'dr>> {
    pub q: Boolean<'dr, D>,
    #[ragu(wire, skip)]
    pub a: D::Wire,
    #[ragu(gadget)]
    pub p: Element<'dr, D>,
}
impl Shape for Kind![Fp; @Inner<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(Inner { q: Bo::build(dr, n)?, a: wire(dr, n)?, p: El::build(dr, n)? })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        Bo::flat::<D>(&g.q, o);
        o.push(Leaf::wire(&g.a));
        El::flat::<D>(&g.p, o)
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        g.enforce_consistent(dr)
    }
}
/// A constant parameter, a driver that is not the first type parameter and a further lifetime-free type.
#[derive(Gadget, Write, Consistent)]
pub struct Generic<'x, #[ragu(driver)] W: Driver<'x>, const N: usize> {
    #[ragu(skip)]
    #[ragu(value)]
    pub v: DriverValue<W, u64>,
    pub z: FixedVec<Boolean<'x, W>, ConstLen<N>>,
    pub y: [Element<'x, W>; N],
}
impl<const N: usize> Shape for Generic<'static, PhantomData<Fp>, N> {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(Generic {
            v: val::<D>(n),
            z: FixedVec::<PhantomData<Bo>, ConstLen<N>>::build(dr, n)?,
            y: <[PhantomData<El>; N]>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.v.as_ref().map(|x| *x))));
        FixedVec::<PhantomData<Bo>, ConstLen<N>>::flat::<D>(&g.z, o);
        <[PhantomData<El>; N]>::flat::<D>(&g.y, o)
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        g.enforce_consistent(dr)
    }
}
/// A type parameter besides the driver.
#[derive(Gadget, Write, Consistent)]
pub struct Tagged<'dr, D: Driver<'dr>, T: Send + Sync + 'static> {
    pub e: Element<'dr, D>,
    #[ragu(phantom)]
    pub t: PhantomData<T>,
    pub b: Boolean<'dr, D>,
}
impl<T: Send + Sync + 'static> Shape for Tagged<'static, PhantomData<Fp>, T> {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(Tagged { e: El::build(dr, n)?, t: PhantomData, b: Bo::build(dr, n)? })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        El::flat::<D>(&g.e, o);
        Bo::flat::<D>(&g.b, o)
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        g.enforce_consistent(dr)
    }
}
/// A type parameter whose bound mentions the driver's field.
pub trait Scale<F>: Send + Sync + 'static {}
pub struct Third;
impl<F> Scale<F> for Third {}
#[derive(Gadget, Write, Consistent)]
pub struct Scaled<'dr, D: Driver<'dr>, S: Scale<D::F>> {
    pub b: Boolean<'dr, D>,
    pub e: Element<'dr, D>,
    #[ragu(phantom)]
    pub t: PhantomData<S>,
}
impl<S: Scale<Fp>> Shape for Scaled<'static, PhantomData<Fp>, S> {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(Scaled { b: Bo::build(dr, n)?, e: El::build(dr, n)?, t: PhantomData })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        Bo::flat::<D>(&g.b, o);
        El::flat::<D>(&g.e, o)
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        g.enforce_consistent(dr)
    }
}

/// A linear combination of labels.
#[derive(Clone)]
pub struct Lc(Vec<(u32, Fp)>, Coeff<Fp>);
impl LinearExpression<u32, Fp> for Lc {
    fn add_term(mut self, wire: &u32, coeff: Coeff<Fp>) -> Self {
        self.0.push((*wire, (coeff * self.1).value()));
        self
    }
    fn gain(mut self, coeff: Coeff<Fp>) -> Self {
        self.1 = self.1 * coeff;
        self
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Gate([u32; 4], [Fp; 4]),
    Add(u32, Vec<(u32, Fp)>),
    Zero(Vec<(u32, Fp)>),
}
/// A driver whose wires are distinct labels and which records what it is asked to do. T only makes types distinct.
pub struct Lab<MK, const T: u8> {
    pub next: u32,
    pub ev: Vec<Ev>,
    mk: PhantomData<MK>,
}
impl<MK, const T: u8> Lab<MK, T> {
    pub fn new() -> Self {
        Lab { next: 1, ev: vec![], mk: PhantomData }
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
}
fn lc(f: impl Fn(Lc) -> Lc) -> Vec<(u32, Fp)> {
    // terms on one wire together, zero terms gone, ordered by wire
    let mut m = std::collections::BTreeMap::new();
    for (w, c) in f(Lc(vec![], Coeff::One)).0 {
        *m.entry(w).or_insert(Fp::ZERO) += c;
    }
    m.into_iter().filter(|(_, c)| *c != Fp::ZERO).collect()
}
impl<MK: MaybeKind, const T: u8> DriverTypes for Lab<MK, T> {
    type ImplField = Fp;
    type ImplWire = u32;
    type MaybeKind = MK;
    type LCadd = Lc;
    type LCenforce = Lc;
    fn gate(&mut self, f: impl Fn() -> Result<(Coeff<Fp>, Coeff<Fp>, Coeff<Fp>, Coeff<Fp>)>) -> Result<(u32, u32, u32, u32)> {
        let v = match rd(MK::maybe_just(|| f().ok().map(|(a, b, c, d)| [a.value(), b.value(), c.value(), d.value()]))) {
            Some(Some(v)) => v,
            Some(None) => return Err(Error::InvalidWitness("witness".into())),
            None => [Fp::ZERO; 4],
        };
        let w = [self.fresh(), self.fresh(), self.fresh(), self.fresh()];
        self.ev.push(Ev::Gate(w, v));
        Ok((w[0], w[1], w[2], w[3]))
    }
}
impl<'dr, MK: MaybeKind, const T: u8> Driver<'dr> for Lab<MK, T> {
    type F = Fp;
    type Wire = u32;
    const ONE: u32 = 0;
    fn add(&mut self, f: impl Fn(Lc) -> Lc) -> u32 {
        let w = self.fresh();
        self.ev.push(Ev::Add(w, lc(f)));
        w
    }
    fn enforce_zero(&mut self, f: impl Fn(Lc) -> Lc) -> Result<()> {
        self.ev.push(Ev::Zero(lc(f)));
        Ok(())
    }
}
type A = Always<()>;
type LA = Lab<A, 0>;
type LB = Lab<A, 1>;
type LE = Lab<Empty, 2>;

/// Converts a label, remembering which were seen; refuses the one of the given position.
struct Seen<S, D> {
    seen: Vec<u32>,
    refuse: usize,
    t: PhantomData<(S, D)>,
}
const FAR: u32 = 1 << 20;
impl<S: DriverTypes<ImplField = Fp, ImplWire = u32>, D: DriverTypes<ImplField = Fp, ImplWire = u32>> WireMap<Fp> for Seen<S, D> {
    type Src = S;
    type Dst = D;
    fn convert_wire(&mut self, w: &u32) -> Result<u32> {
        if self.seen.len() == self.refuse {
            return Err(Error::InvalidWitness("refused".into()));
        }
        self.seen.push(*w);
        Ok(FAR + *w)
    }
}
fn seen<S, D>(refuse: usize) -> Seen<S, D> {
    Seen { seen: vec![], refuse, t: PhantomData }
}
fn check(name: &str, what: &str, ok: bool) {
    <Fp as symf::Model>::check(ok, &format!("{what} [{name}]"));
}
fn flat<'dr, K: Shape, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, K>) -> Vec<Leaf<D::Wire>> {
    let mut o = vec![];
    K::flat::<D>(g, &mut o);
    o
}
fn wires<W: Clone>(f: &[Leaf<W>]) -> Vec<W> {
    f.iter().filter_map(|l| l.wire.clone()).collect()
}
fn made<'dr, K: Shape, D: Driver<'dr, F = Fp>>(dr: &mut D, mut from: u64) -> Bound<'dr, D, K> {
    K::build(dr, &mut from).expect("construction succeeds")
}
fn moved<W>(f: &[Leaf<u32>]) -> Vec<Leaf<u32>> {
    f.iter().map(|l| Leaf { wire: l.wire.map(|w| w + FAR), ..l.clone() }).collect()
}

struct Map;
impl Visit for Map {
    fn shape<K: Shape>(&mut self, n: &str) {
        let dr = &mut LA::new();
        let g = made::<K, LA>(dr, 100);
        let want = flat::<K, LA>(&g);
        let mut m = seen::<LA, LB>(usize::MAX);
        let h = K::map_gadget(&g, &mut m);
        check(n, "conversion succeeds", h.is_ok());
        let h = h.unwrap();
        check(n, "every wire is converted exactly once, in declaration order", m.seen == wires(&want));
        check(n, "the converted gadget holds in each place the converted wire and the same witness value", flat::<K, LB>(&h) == moved::<u32>(&want));
        let mut m = seen::<LA, LE>(usize::MAX);
        let h = Gadget::map(&g, &mut m).expect("conversion succeeds");
        let got = flat::<K, LE>(&h);
        check(n, "without a witness: every wire is converted exactly once, in declaration order", m.seen == wires(&want));
        check(n, "without a witness: each wire is in its place and no value is present", wires(&got) == wires(&moved::<u32>(&want)) && got.iter().all(|l| l.value.is_none()));
        check(n, "the number of wires is their number", g.num_wires().ok() == Some(wires(&want).len()));
        check(n, "conversion records nothing on the source", K::map_gadget(&g, &mut seen::<LA, LB>(usize::MAX)).is_ok());
        for j in 0..wires(&want).len() {
            let mut m = seen::<LA, LB>(j);
            check(n, "a refused wire refuses the gadget", K::map_gadget(&g, &mut m).is_err());
        }
        let s: Bound<'_, Emulator<Wireless<A, Fp>>, K> = StripWires::<LA>::remap(&g).expect("stripping succeeds");
        let s = s.sendable().into_inner();
        let got = flat::<K, Emulator<Wireless<A, Fp>>>(&s);
        check(n, "stripping wires keeps the witness values", got.iter().map(|l| l.value).collect::<Vec<_>>() == want.iter().map(|l| l.value).collect::<Vec<_>>());
        let c: Bound<'_, LB, K> = CloneWires::<LA, LB>::remap(&g).expect("copying wires succeeds");
        check(n, "copying wires to another driver keeps wires and values", flat::<K, LB>(&c) == want);
    }
}
struct Copy;
impl Visit for Copy {
    fn shape<K: Shape>(&mut self, n: &str) {
        let dr = &mut LA::new();
        let g = made::<K, LA>(dr, 100);
        let k = dr.ev.len();
        check(n, "a clone has the same wires and witness values", flat::<K, LA>(&g.clone()) == flat::<K, LA>(&g));
        check(n, "cloning records nothing", dr.ev.len() == k);
        let dr = &mut LE::new();
        let g = made::<K, LE>(dr, 100);
        check(n, "without a witness: a clone has the same wires", flat::<K, LE>(&g.clone()) == flat::<K, LE>(&g));
    }
}
struct Equal;
impl Visit for Equal {
    fn shape<K: Shape>(&mut self, n: &str) {
        let dr = &mut LA::new();
        let (g, h) = (made::<K, LA>(dr, 100), made::<K, LA>(dr, 500));
        let k = dr.ev.len();
        check(n, "enforcing equality succeeds", g.enforce_equal(dr, &h).is_ok());
        let mut got: Vec<(u32, u32)> = vec![];
        let mut other = false;
        for e in &dr.ev[k..] {
            match e {
                Ev::Zero(t) if t.len() == 2 && t[0].1 + t[1].1 == Fp::ZERO => got.push((t[0].0, t[1].0)),
                Ev::Zero(t) if t.is_empty() => {}
                Ev::Zero(_) => other = true,
                _ => {}
            }
        }
        let mut want: Vec<(u32, u32)> = wires(&flat::<K, LA>(&g)).into_iter().zip(wires(&flat::<K, LA>(&h))).map(|(a, b)| (a.min(b), a.max(b))).collect();
        got.sort();
        got.dedup();
        want.sort();
        check(n, "equality constrains each pair of wires in the same place, and nothing else", got == want && !other);
    }
}
struct Cons;
impl Visit for Cons {
    fn shape<K: Shape>(&mut self, n: &str) {
        let dr = &mut LA::new();
        let g = made::<K, LA>(dr, 100);
        let (k, old) = (dr.ev.len(), dr.next);
        check(n, "enforcing consistency succeeds", K::consistent(&g, dr).is_ok());
        let mut got: Vec<u32> = dr.ev[k..]
            .iter()
            .flat_map(|e| match e {
                Ev::Zero(t) | Ev::Add(_, t) => t.iter().map(|t| t.0).filter(|w| *w > 0 && *w < old).collect(),
                _ => vec![],
            })
            .collect();
        let want: Vec<u32> = flat::<K, LA>(&g).iter().filter(|l| l.boolean).filter_map(|l| l.wire).collect();
        got.sort();
        got.dedup();
        let mut all = want.clone();
        all.sort();
        check(n, "consistency reaches every nested gadget and no other wire", got == all);
        let gates = dr.ev[k..].iter().filter(|e| matches!(e, Ev::Gate(..))).count();
        check(n, "each nested boolean is enforced with a gate of its own", gates >= want.len());
    }
}
struct Order;
impl Visit for Order {
    fn shape<K: Shape>(&mut self, n: &str) {
        let dr = &mut LA::new();
        let g = made::<K, LA>(dr, 100);
        let want: Vec<Leaf<u32>> = flat::<K, LA>(&g).into_iter().filter(|l| l.written).collect();
        let mut buf: Vec<Element<'_, LA>> = vec![];
        check(n, "serialization succeeds", g.write(dr, &mut buf).is_ok());
        check(n, "serialization emits every non-skipped field, in declaration order", buf.iter().map(|e| *e.wire()).collect::<Vec<_>>() == wires(&want));
        check(n, "serialized elements carry the witness values", buf.iter().map(|e| rd(e.value().map(low))).collect::<Vec<_>>() == want.iter().map(|l| l.value).collect::<Vec<_>>());
        let mut count = 0usize;
        check(n, "counting succeeds", g.write(dr, &mut count).is_ok());
        check(n, "the count is the number of elements emitted", count == want.len());
        // through a pipe: the same values, in the same order, allocated on the other side
        let other = &mut LB::new();
        let mut out: Vec<Element<'_, LB>> = vec![];
        let mut pipe = Pipe::new(other, &mut out);
        check(n, "piping succeeds", g.write(dr, &mut pipe).is_ok());
        drop(pipe);
        check(n, "piped elements carry the witness values in order", out.iter().map(|e| rd(e.value().map(low))).collect::<Vec<_>>() == want.iter().map(|l| l.value).collect::<Vec<_>>());
        let mut w: Vec<u32> = out.iter().map(|e| *e.wire()).collect();
        let k = w.len();
        w.sort();
        w.dedup();
        check(n, "piped elements are fresh, each its own wire", w.len() == k && w.iter().all(|w| *w < other.next && *w > 0));
        let dr = &mut LE::new();
        let g = made::<K, LE>(dr, 100);
        let mut buf: Vec<Element<'_, LE>> = vec![];
        check(n, "without a witness: serialization succeeds", g.write(dr, &mut buf).is_ok());
        check(n, "without a witness: the same elements in the same order", buf.iter().map(|e| *e.wire()).collect::<Vec<_>>() == wires(&want));
    }
}
struct Demote;
impl Visit for Demote {
    fn shape<K: Shape>(&mut self, n: &str) {
        let dr = &mut LA::new();
        let (g, h) = (made::<K, LA>(dr, 100), made::<K, LA>(dr, 500));
        let want = flat::<K, LA>(&g);
        let (a, b) = (g.demote().expect("demotion succeeds"), h.demote().expect("demotion succeeds"));
        fn at<'dr, K: Shape>(d: &Demoted<'dr, LA, Bound<'dr, LA, K>>) -> Vec<Leaf<u32>> {
            flat::<K, ragu_primitives::promotion::DemotedDriver<LA>>(d)
        }
        let bare: Vec<_> = want.iter().map(|l| Leaf { value: None, ..l.clone() }).collect();
        check(n, "a demoted gadget keeps every wire and no value", at::<K>(&a) == bare);
        check(n, "a clone of a demoted gadget keeps every wire", at::<K>(&a.clone()) == bare);
        let mut m = seen::<LA, LB>(usize::MAX);
        let x = a.map(&mut m).expect("conversion of a demoted gadget succeeds");
        check(n, "conversion of a demoted gadget visits every wire exactly once, in declaration order", m.seen == wires(&want));
        check(n, "the converted demoted gadget holds each converted wire in its place", flat::<K, ragu_primitives::promotion::DemotedDriver<LB>>(&x) == moved::<u32>(&bare));
        check(n, "a demoted gadget has as many wires", a.num_wires().ok() == Some(wires(&want).len()));
        let (k, k2) = (dr.ev.len(), wires(&want).len());
        check(n, "equality of demoted gadgets succeeds", a.enforce_equal(dr, &b).is_ok());
        let first = dr.ev[k..].to_vec();
        let l = dr.ev.len();
        g.enforce_equal(dr, &h).expect("equality succeeds");
        check(n, "equality of demoted gadgets imposes what equality of the gadgets imposes", first == dr.ev[l..]);
        check(n, "nothing is imposed on a gadget without wires", k2 > 0 || first.is_empty());
    }
}
struct Extract;
impl Visit for Extract {
    fn shape<K: Shape>(&mut self, n: &str) {
        // wires are the assigned values on this driver
        let mut dr = Emulator::<Wired<Fp>>::extractor();
        let g = made::<K, Emulator<Wired<Fp>>>(&mut dr, 100);
        let want = wires(&flat::<K, Emulator<Wired<Fp>>>(&g));
        check(n, "extracted wires are the wires in declaration order", dr.wires(&g).ok() == Some(want));
    }
}
/// The same construction on back ends with and without wires and witnesses.
struct Ends;
impl Visit for Ends {
    fn shape<K: Shape>(&mut self, n: &str) {
        let want = flat::<K, LA>(&made::<K, LA>(&mut LA::new(), 100));
        let vals = |f: &[Option<u64>]| want.iter().map(|l| l.value).collect::<Vec<_>>() == f;
        let none = |f: &[Option<u64>]| f.len() == want.len() && f.iter().all(|v| v.is_none());
        let dr = &mut PhantomData::<Fp>;
        let f = flat::<K, PhantomData<Fp>>(&made::<K, PhantomData<Fp>>(dr, 100));
        check(n, "the driver without wires or witness builds the same structure", none(&f.iter().map(|l| l.value).collect::<Vec<_>>()) && f.iter().zip(&want).all(|(a, b)| a.wire.is_some() == b.wire.is_some()));
        let dr = &mut Emulator::<Wireless<A, Fp>>::execute();
        let f = flat::<K, Emulator<Wireless<A, Fp>>>(&made::<K, Emulator<Wireless<A, Fp>>>(dr, 100));
        check(n, "the executing emulator builds the same structure with the same values", vals(&f.iter().map(|l| l.value).collect::<Vec<_>>()));
        let dr = &mut Emulator::<Wireless<Empty, Fp>>::counter();
        let f = flat::<K, Emulator<Wireless<Empty, Fp>>>(&made::<K, Emulator<Wireless<Empty, Fp>>>(dr, 100));
        check(n, "the counting emulator builds the same structure without values", none(&f.iter().map(|l| l.value).collect::<Vec<_>>()));
        let sim = ragu_primitives::Simulator::<Fp>::simulate((), |dr, _| {
            let f = flat::<K, ragu_primitives::Simulator<Fp>>(&made::<K, ragu_primitives::Simulator<Fp>>(dr, 100));
            check(n, "the simulator builds the same structure with the same values", vals(&f.iter().map(|l| l.value).collect::<Vec<_>>()));
            let (g, h) = (made::<K, ragu_primitives::Simulator<Fp>>(dr, 100), made::<K, ragu_primitives::Simulator<Fp>>(dr, 100));
            let k = dr.num_constraints();
            g.enforce_equal(dr, &h)?;
            check(n, "equality costs the simulator a constraint per wire at least", dr.num_constraints() - k >= want.iter().filter(|l| l.wire.is_some()).count());
            K::consistent(&g, dr)
        });
        check(n, "the simulator accepts an honest construction, equality with its like and consistency", sim.is_ok());
        if want.iter().any(|l| l.wire.is_some() && !l.boolean) {
            let sim = ragu_primitives::Simulator::<Fp>::simulate((), |dr, _| {
                let (g, h) = (made::<K, ragu_primitives::Simulator<Fp>>(dr, 100), made::<K, ragu_primitives::Simulator<Fp>>(dr, 101));
                g.enforce_equal(dr, &h)
            });
            check(n, "the simulator refuses equality with different values", matches!(sim, Err(Error::InvalidWitness(_))));
        }
    }
}
/// What the provided methods of a driver ask of the required ones.
fn provided() {
    let c = |ok, l: &str| <Fp as symf::Model>::check(ok, l);
    let coeffs = [Coeff::Zero, Coeff::One, Coeff::Two, Coeff::NegativeOne, Coeff::Arbitrary(Fp::from(5)), Coeff::NegativeArbitrary(Fp::from(7))];
    let z = Fp::ZERO;
    for x in coeffs {
        let dr = &mut LA::new();
        let w = dr.alloc(|| Ok(x)).unwrap();
        // satisfied, and the allocated wire carries the value on a wire nothing constrains
        let Some(Ev::Gate(ws, vs)) = dr.ev.first().cloned() else { panic!("allocation takes a gate") };
        let at = ws.iter().position(|u| *u == w);
        c(dr.ev.len() == 1 && vs[0] * vs[1] == vs[2] && vs[2] * vs[3] == z, "allocation takes one satisfied gate");
        c(at.is_some_and(|i| vs[i] == x.value() && (i == 0 || i == 1 || i == 3)), "the allocated wire carries the value");
        let k = dr.constant(x);
        c(matches!(&dr.ev[1..], [Ev::Add(w, t)] if *w == k && *t == if x.value() == z { vec![] } else { vec![(0, x.value())] }), "a constant is that multiple of ONE");
        for y in coeffs {
            let dr = &mut LA::new();
            let p = Coeff::Arbitrary(x.value() * y.value());
            let (a, b, d) = dr.mul(|| Ok((x, y, p))).unwrap();
            c(matches!(&dr.ev[..], [Ev::Gate(w, v)] if w[..3] == [a, b, d] && v[..] == [x.value(), y.value(), p.value(), z]), "a multiplication is a gate with its three values and a zero fourth");
            dr.enforce_equal(&a, &b).unwrap();
            c(matches!(&dr.ev[1], Ev::Zero(t) if t.len() == 2 && t[0].0 == a && t[1].0 == b && t[0].1 + t[1].1 == z && t[0].1 != z), "equality is one constraint on the difference");
            let dr = &mut LA::new();
            let (u, w) = (dr.alloc(|| Ok(x)).unwrap(), dr.alloc(|| Ok(y)).unwrap());
            let s = dr.add(|l| l.add(&u).gain(x).sub(&w).gain(y).extend([(u, x), (w, Coeff::One)]));
            let (x, y) = (x.value(), y.value());
            let mut want: Vec<(u32, Fp)> = vec![(u, Fp::ONE + x * y * x), (w, -x + x * y)];
            want.retain(|t| t.1 != z);
            c(matches!(dr.ev.last(), Some(Ev::Add(r, t)) if *r == s && *t == want), "add, sub, gain and extend accumulate in the order they are called");
            use ragu_core::drivers::DirectSum;
            let d = DirectSum::default().add(&Fp::from(3)).gain(Coeff::Arbitrary(x)).sub(&Fp::from(11)).gain(Coeff::Arbitrary(y)).extend([(Fp::from(3), Coeff::Arbitrary(x)), (Fp::from(11), Coeff::One)]);
            c(d.value() == (Fp::ONE + x * y * x) * Fp::from(3) + (-x + x * y) * Fp::from(11), "a direct sum is the value of the combination");
        }
    }
    // an error of the witness closure is reported by every operation that calls it
    let dr = &mut LA::new();
    c(dr.alloc(|| Err(Error::CircuitBoundExceeded { limit: 3 })).is_err(), "allocation reports a witness error");
    c(dr.mul(|| Err(Error::CircuitBoundExceeded { limit: 3 })).is_err(), "multiplication reports a witness error");
    let dr = &mut ragu_primitives::Simulator::<Fp>::new();
    c(dr.alloc(|| Err(Error::CircuitBoundExceeded { limit: 3 })).is_err() && dr.mul(|| Err(Error::CircuitBoundExceeded { limit: 3 })).is_err(), "the simulator reports a witness error");
    c(dr.num_gates() == 0 && dr.num_allocations() == 0, "and counts nothing for it");
    // without a witness the closure is not called
    let dr = &mut PhantomData::<Fp>;
    c(dr.alloc(|| panic!("called")).is_ok() && dr.mul(|| panic!("called")).is_ok(), "a driver without witness does not evaluate it");
    let dr = &mut Emulator::<Wireless<Empty, Fp>>::counter();
    c(dr.alloc(|| panic!("called")).is_ok() && dr.mul(|| panic!("called")).is_ok(), "the counting emulator does not evaluate the witness");
}
fn fixed() {
    let c = |ok, l: &str| <Fp as symf::Model>::check(ok, l);
    for k in 0..12usize {
        let v: Vec<usize> = (0..k).collect();
        macro_rules! at {
            ($($n:literal)*) => { $({
                let ok = k == $n;
                let mismatch = |e: Option<Error>| ok || matches!(e, Some(Error::VectorLengthMismatch { expected: $n, actual }) if actual == k);
                let a = FixedVec::<usize, ConstLen<$n>>::new(v.clone());
                let b = FixedVec::<usize, ConstLen<$n>>::try_from(v.clone());
                let d = v.iter().copied().collect_fixed::<ConstLen<$n>>();
                let e = v.iter().copied().map(Ok).try_collect_fixed::<usize, ConstLen<$n>>();
                for (r, l) in [(a, "new"), (b, "try_from"), (d, "collect_fixed"), (e, "try_collect_fixed")] {
                    c(r.is_ok() == ok, &format!("a fixed vector is created by {l} exactly when the length is the declared one"));
                    match r {
                        Ok(r) => {
                            c(r[..] == v[..] && r.len() == $n, "a fixed vector holds what it was given");
                            c(r.clone()[..] == v[..] && r.clone().into_inner() == v && r.into_iter().collect::<Vec<_>>() == v, "cloning and unwrapping keep the contents");
                        }
                        Err(e) => c(mismatch(Some(e)), "the refusal names the expected and actual lengths"),
                    }
                }
            })* };
        }
        at!(0 1 2 3 4 5 8 11);
    }
    let f = FixedVec::<usize, ConstLen<6>>::from_fn(|i| i * i);
    c(f[..] == [0, 1, 4, 9, 16, 25], "from_fn fills every position with its own value");
    let f = FixedVec::<usize, ConstLen<6>>::try_from_fn(|i| Ok(i + 1));
    c(f.is_ok_and(|f| f[..] == [1, 2, 3, 4, 5, 6]), "try_from_fn fills every position with its own value");
    for j in 0..6 {
        let f = FixedVec::<usize, ConstLen<6>>::try_from_fn(|i| if i == j { Err(Error::CircuitBoundExceeded { limit: 7 }) } else { Ok(i) });
        c(matches!(f.err(), Some(Error::CircuitBoundExceeded { limit: 7 })), "try_from_fn reports the error of any position");
        let f = (0..6).map(|i| if i == j { Err(Error::CircuitBoundExceeded { limit: 7 }) } else { Ok(i) }).try_collect_fixed::<usize, ConstLen<6>>();
        c(matches!(f.err(), Some(Error::CircuitBoundExceeded { limit: 7 })), "try_collect_fixed reports the error of any position");
    }
}
/// Promoting a demoted boolean gives back the wire with the value supplied.
fn promote() {
    let c = |ok, l: &str| <Fp as symf::Model>::check(ok, l);
    for old in [false, true] {
        for new in [false, true] {
            let dr = &mut LA::new();
            let b = Boolean::alloc(dr, LA::just(|| old)).unwrap();
            let p = b.demote().unwrap().promote(LA::just(|| new));
            c(p.wire() == b.wire() && rd(p.value()) == Some(new), "a promoted boolean has its wire and the value supplied");
        }
    }
}
pub fn register(v: &mut Vec<vcd::Contract>) {
    use crate::shapes::each;
    explore!(v, "C17", "conversion", "derive(Gadget)::map_gadget, map_gadget of (), arrays, pairs, Box, FixedVec; Gadget::num_wires, StripWires, CloneWires", || each(&mut Map), bound "133 gadget shapes: all structs of up to two fields over six field kinds, 54 of three fields, five of up to twelve, provided containers and their nestings, generic structs");
    explore!(v, "C17", "cloning", "derive(Gadget)::clone", || each(&mut Copy), bound "the same 133 shapes");
    explore!(v, "C17", "equality", "derive(Gadget)::enforce_equal_gadget and the provided ones", || each(&mut Equal), bound "the same 133 shapes");
    explore!(v, "C17", "consistency", "derive(Consistent) and the provided enforce_consistent", || each(&mut Cons), bound "the same 133 shapes");
    explore!(v, "C17", "serialization", "derive(Write), the provided write_gadget, Pipe::write, Buffer for usize", || each(&mut Order), bound "the same 133 shapes");
    explore!(v, "C17", "demotion", "Demoted::{new, clone, map, enforce_equal}", || each(&mut Demote), bound "the same 133 shapes");
    explore!(v, "C17", "extraction", "Emulator::wires", || each(&mut Extract), bound "the same 133 shapes");
    explore!(v, "C17", "back ends", "PhantomData, Emulator, Simulator as drivers of every shape", || each(&mut Ends), bound "the same 133 shapes");
    explore!(v, "C17", "provided driver methods", "Driver::{alloc, constant, mul, enforce_equal}, LinearExpression::{add, sub, extend, gain}, DirectSum", provided, bound "every coefficient kind, one value each");
    explore!(v, "C17", "fixed vectors", "FixedVec::{new, try_from, from_fn, try_from_fn, clone, into_inner}, CollectFixed", fixed, bound "lengths up to 11");
    explore!(v, "C17", "promotion", "Promotion::promote for Boolean, Demoted::promote", promote, bound "ground: both values");
}
