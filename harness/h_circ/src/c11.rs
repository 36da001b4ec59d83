//! Contracts of the registry: m(W, X, Y) interpolates the registered circuits, in order, plus the key term.
use crate::Rng;
use crate::c08::object;
use crate::c09::trace;
use crate::power;
use crate::prog::{Body, Builder, Op, Prog, random};
use crate::stages::{S, bonding};
use ragu_arithmetic::Domain;
use ragu_circuits::polynomials::{R, Rank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::staging::StageExt;
use ragu_circuits::verif::{self, Obj};
use ragu_core::Error;
use std::collections::BTreeSet;
use std::sync::Arc;
use pasta_curves::{Fp, Fq};
use vcd::{Contract, Model, contract, explore};

type T = R<7>;

/// What is registered: a circuit of some category, a mask or a bonding circuit.
#[derive(Clone)]
enum Entry<M: Model> {
    Internal(Arc<Body<M>>),
    Step(Arc<Body<M>>),
    App(Arc<Body<M>>),
    Bonding(Arc<Body<M>>),
    Mask,
}
impl<M: Model> Entry<M> {
    /// Internal circuits first, then bonding objects, internal steps and application steps.
    fn rank(&self) -> usize {
        match self {
            Entry::Internal(_) => 0,
            Entry::Bonding(_) | Entry::Mask => 1,
            Entry::Step(_) => 2,
            Entry::App(_) => 3,
        }
    }
    fn object<K: Rank>(&self) -> Obj<'static, M, K> {
        match self {
            Entry::Internal(b) | Entry::Step(b) | Entry::App(b) => object::<M, K>(b).unwrap(),
            Entry::Bonding(b) => verif::bonding(bonding::<M, K>(b).unwrap()),
            Entry::Mask => verif::bonding(<S<3, 3> as StageExt<M, K>>::mask().unwrap()),
        }
    }
}
fn register_one<M: Model, K: Rank>(r: RegistryBuilder<'static, M, K>, e: &Entry<M>) -> RegistryBuilder<'static, M, K> {
    macro_rules! reg {
        ($f:ident $b:expr) => {
            match $b.outs.len() {
                0 => r.$f(Prog::<M, 0>($b.clone())),
                1 => r.$f(Prog::<M, 1>($b.clone())),
                _ => r.$f(Prog::<M, 2>($b.clone())),
            }
            .unwrap()
        };
    }
    match e {
        Entry::Internal(b) => reg!(register_internal_circuit b),
        Entry::Step(b) => reg!(register_internal_step b),
        Entry::App(b) => reg!(register_circuit b),
        Entry::Bonding(b) => r.register_bonding(bonding::<M, K>(b).unwrap()),
        Entry::Mask => r.register_bonding(<S<3, 3> as StageExt<M, K>>::mask().unwrap()),
    }
}
fn build<M: Model, K: Rank>(es: &[Entry<M>]) -> Registry<'static, M, K> {
    let mut b = RegistryBuilder::<M, K>::new();
    for (k, e) in es.iter().enumerate() {
        M::check(b.num_circuits() == k, "the builder counts every registered circuit");
        M::check(b.num_internal_circuits() == es[..k].iter().filter(|e| e.rank() < 2).count(), "the builder counts internal circuits and bonding objects");
        M::check(1usize << b.log2_circuits() == k.next_power_of_two(), "the builder's domain is the smallest that fits");
        b = register_one(b, e);
    }
    b.finalize().unwrap()
}
/// The same, in index order, with a stable order within each category.
fn sorted<M: Model>(es: &[Entry<M>]) -> Vec<Entry<M>> {
    let mut v = es.to_vec();
    v.sort_by_key(|e| e.rank());
    v
}
fn bond<M: Model>(r: &mut Rng) -> Arc<Body<M>> {
    let mut b = Builder::<M>::new(0);
    for _ in 0..1 + r.below(4) {
        b.push(Op::Alloc(crate::prog::wit(r)));
    }
    for _ in 0..r.below(3) {
        let (i, j) = (1 + r.below(b.live.len() - 1), 1 + r.below(b.live.len() - 1));
        b.push(Op::Equal(i, j));
    }
    b.body(0)
}
fn entries<M: Model>(r: &mut Rng, n: usize) -> Vec<Entry<M>> {
    (0..n)
        .map(|_| {
            let k = r.below(9);
            if k == 8 {
                return Entry::Mask;
            }
            if k == 7 {
                return Entry::Bonding(bond(r));
            }
            let (n, o) = (r.below(5), r.below(3));
            let b = random::<M>(r, n, 0, o, 1);
            match k {
                0 | 1 => Entry::Internal(b),
                2 | 3 => Entry::Step(b),
                _ => Entry::App(b),
            }
        })
        .collect()
}
/// omega^(the log2(n)-bit reversal of i)
fn point<M: Model>(i: usize, k: u32) -> M {
    let d = Domain::<M>::new(k);
    let j = (0..k).fold(0usize, |a, b| a << 1 | (i >> b & 1));
    power(d.omega(), j as u128)
}
fn key<M: Model, K: Rank>(g: &Registry<'_, M, K>, x: M, y: M) -> M {
    g.digest() * power(x, K::num_coeffs() as u128 - 1) * power(y, K::num_coeffs() as u128 - 1)
}
fn at_index<M: Model, K: Rank>(es: &[Entry<M>], x: M, y: M) {
    let g = build::<M, K>(es);
    let es = sorted(es);
    M::check(g.num_circuits() == es.len(), "the registry holds every registered circuit");
    let k = es.len().next_power_of_two().trailing_zeros();
    let m_xy = g.xy(x, y);
    for i in 0..1usize << k {
        let want = key(&g, x, y)
            + match es.get(i) {
                Some(e) => {
                    let o = e.object::<K>();
                    M::check(g.constraint_counts(CircuitIndex::new(i)) == o.counts(), "the counts of an index are those of its circuit");
                    let p = match e {
                        Entry::Mask => vec![],
                        _ => o.plan(),
                    };
                    o.sxy(x, y, &p)
                }
                None => M::ZERO,
            };
        let c = CircuitIndex::new(i);
        let w = point::<M>(i, k);
        M::check(c.omega_j::<M>() == w, "an index's point is the bit-reversed power of the domain generator");
        M::check_eq(g.circuit_xy(c, x, y), want, "m at an index's point is that circuit plus the key term");
        M::check_eq(g.circuit_y(c, y).eval(x), want, "m(omega_i, X, y) is that circuit's s(X, y) plus the key term");
        M::check_eq(g.wx(w, x).eval(y), want, "m(omega_i, x, Y) is that circuit's s(x, Y) plus the key term");
        M::check_eq(g.wy(w, y).eval(x), want, "m(w, X, y) agrees at domain points");
        M::check_eq(g.wxy(w, x, y), want, "m(w, x, y) agrees at domain points");
        M::check_eq(m_xy.eval(w), want, "m(W, x, y) agrees at domain points");
        M::check(g.circuit_in_domain(c), "every index below the domain size is in the domain");
    }
}
fn xy<M: Model>() -> (M, M) {
    let (x, y) = (M::input("x"), M::input("y"));
    M::fork_only(&[x, y]);
    M::opaque_repr();
    (x, y)
}
fn cases<M: Model>(n: u64) -> Vec<Rng> {
    if M::SYMBOLIC { (0..n * crate::depth(1) as u64).map(Rng).collect() } else { vec![Rng::chosen::<M>()] }
}
fn indices<M: Model>() {
    let (x, y) = xy::<M>();
    let sizes: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9];
    for (k, mut r) in cases::<M>(48).into_iter().enumerate() {
        let n = if M::SYMBOLIC { sizes[k % sizes.len()] } else { r.below(10) };
        at_index::<M, T>(&entries::<M>(&mut r, n), x, y)
    }
}
fn indices_13<M: Model>() {
    let (x, y) = xy::<M>();
    for mut r in cases::<M>(1) {
        at_index::<M, R<13>>(&entries::<M>(&mut r, 3), x, y)
    }
}
fn indices_many<M: Model>() {
    let (x, y) = xy::<M>();
    for mut r in cases::<M>(1) {
        at_index::<M, T>(&entries::<M>(&mut r, 17), x, y)
    }
}
/// Any w: all orders of evaluation agree, and interpolate.
fn anywhere<M: Model>() {
    let (x, y, w) = (M::input("x"), M::input("y"), M::input("w"));
    M::fork_only(&[x, y]);
    M::opaque_repr();
    let sizes: &[usize] = &[1, 2, 3, 4, 5, 8, 9];
    for (k, mut r) in cases::<M>(14).into_iter().enumerate() {
        let n = if M::SYMBOLIC { sizes[k % sizes.len()] } else { r.below(10) };
        let es = entries::<M>(&mut r, n);
        let g = build::<M, T>(&es);
        let es = sorted(&es);
        let v = g.xy(x, y).eval(w);
        M::check_eq(g.wxy(w, x, y), v, "m(w, x, y) is m(W, x, y) at w");
        M::check_eq(g.wx(w, x).eval(y), v, "m(w, x, Y) at y agrees");
        M::check_eq(g.wy(w, y).eval(x), v, "m(w, X, y) at x agrees");
        let at = g.at(w);
        M::check_eq(at.xy(x, y), v, "the cached form agrees at (x, y)");
        M::check_eq(at.x(x).eval(y), v, "the cached form agrees at x");
        M::check_eq(at.y(y).eval(x), v, "the cached form agrees at y");
        M::check(g.xy(x, y).iter_coeffs().enumerate().all(|(i, c)| i < n.next_power_of_two() || c == M::ZERO), "m has degree below the domain size in W");
        let _ = es;
    }
}
/// A trace is laid out by the plan of the circuit at the given index.
fn assembles<M: Model>() {
    let (x, a) = (M::input("x"), M::input("alpha"));
    M::fork_only(&[x]);
    M::opaque_repr();
    for mut r in cases::<M>(6) {
        let es = entries::<M>(&mut r, 5);
        let g = build::<M, T>(&es);
        for (i, e) in sorted(&es).iter().enumerate() {
            if let Entry::Internal(b) | Entry::Step(b) | Entry::App(b) = e {
                let t = trace(b).0;
                let got = g.assemble_with_alpha(&t, CircuitIndex::new(i), a).unwrap();
                let want = verif::assemble::<M, T>(&t, &e.object::<T>().plan(), a).unwrap();
                M::check_eq(got.eval(x), want.eval(x), "a trace is assembled by the layout of its own circuit");
            }
        }
    }
}
/// At most as many circuits as coefficients.
fn capacity<M: Model>() {
    M::opaque_repr();
    let full = T::num_coeffs();
    let ns: Vec<usize> = if M::SYMBOLIC { vec![full + 1, full + 2, full] } else { vec![full - 2 + crate::small::<M>("n", 3)] };
    for n in ns {
        let mut b = RegistryBuilder::<M, T>::new();
        for _ in 0..n {
            b = b.register_circuit(Prog::<M, 0>(Builder::<M>::new(0).body(0))).unwrap();
        }
        match b.finalize() {
            Ok(g) => M::check(n <= full && g.num_circuits() == n, "a registry beyond the capacity is refused"),
            Err(Error::CircuitBoundExceeded { limit }) => M::check(n > full && limit == full, "a registry within the capacity is accepted"),
            Err(_) => M::check(false, "a registry within the capacity is accepted"),
        }
    }
}
/// Different registries have different keys, equal ones the same.
fn digests<M: Model>() {
    let mut r = Rng::chosen::<M>();
    let n = 1 + r.below(5);
    let mut seed = Rng(r.next());
    let es = entries::<M>(&mut seed, n);
    let d = build::<M, T>(&es).digest();
    M::check(build::<M, T>(&es).digest() == d, "the key is a function of the circuits");
    let (w, x, y) = (M::from(0x1357911), M::from(0x1234567), M::from(0x7654321));
    let value = |g: &Registry<'_, M, T>| g.wxy(w, x, y) - key(g, x, y);
    let g = build::<M, T>(&es);
    for k in 0..4 {
        let mut f = es.clone();
        let i = r.below(n);
        match k {
            0 => drop(f.remove(i)),
            1 => f.push(entries::<M>(&mut r, 1).pop().unwrap()),
            2 => f[i] = entries::<M>(&mut r, 1).pop().unwrap(),
            _ => {
                let j = r.below(n);
                f.swap(i, j)
            }
        }
        let h = build::<M, T>(&f);
        M::check(value(&h) == value(&g) || h.digest() != d, "the key changes whenever the registered polynomial does");
    }
}
/// The points of the first 2^16 indices are distinct, do not depend on the domain size, and have distinct lookup keys.
fn points<M: Model>() {
    const K: u32 = 16;
    let w = Domain::<M>::new(K).omega();
    let mut all = BTreeSet::new();
    let mut keys = BTreeSet::new();
    let mut pows = vec![M::ONE];
    for i in 1..1usize << K {
        pows.push(pows[i - 1] * w);
    }
    for i in 0..1usize << K {
        let p = CircuitIndex::new(i).omega_j::<M>();
        let rev = |k: u32| (0..k).fold(0usize, |a, b| a << 1 | (i >> b & 1));
        M::check(p == pows[rev(K)], "an index's point is the bit-reversed power of the generator of the domain of size 2^16");
        M::check(CircuitIndex::from_u32(i as u32).omega_j::<M>() == p, "an index is the same however it is made");
        M::check(usize::from(CircuitIndex::new(i)) == i, "an index converts back");
        let five = p + p + p + p + p;
        let r = five.to_repr();
        keys.insert(u64::from_le_bytes(r.as_ref()[..8].try_into().unwrap()));
        all.insert(r.as_ref().to_vec());
    }
    M::check(all.len() == 1 << K, "distinct indices have distinct points");
    M::check(keys.len() == 1 << K, "distinct points have distinct lookup keys");
}
/// Every index of a large registry finds its own circuit, and only that.
fn large<M: Model, K: Rank>(n: usize) {
    let (x, y) = (M::from(3), M::from(7));
    let body = |i: usize| {
        let mut b = Builder::<M>::new(0);
        b.push(Op::Enforce(vec![crate::prog::Term::W(0, ragu_arithmetic::Coeff::Arbitrary(M::from(1000 + i as u64)))]));
        b.body(0)
    };
    let mut b = RegistryBuilder::<M, K>::new();
    for i in 0..n {
        b = b.register_circuit(Prog::<M, 0>(body(i))).unwrap();
    }
    let g = b.finalize().unwrap();
    let k = key(&g, x, y);
    let base = object::<M, K>(&body(0)).unwrap();
    let first = base.sxy(x, y, &base.plan());
    let step = {
        let o = object::<M, K>(&body(1)).unwrap();
        o.sxy(x, y, &o.plan()) - first
    };
    for i in 0..n.next_power_of_two() {
        let want = if i < n { first + step * M::from(i as u64) } else { M::ZERO };
        M::check(g.circuit_xy(CircuitIndex::new(i), x, y) == want + k, "every index of a large registry finds its own circuit");
    }
}
fn large_fp() {
    large::<Fp, T>(128);
    large::<Fp, T>(70);
    large::<Fp, R<13>>(8192);
}
fn large_fq() {
    let ok = matches!(symf::concrete::<Fq>(1, &[], &|| { large::<Fq, T>(128); large::<Fq, R<13>>(8192) }), symf::Run::Pass);
    Fp::check(ok, "every index of a large registry finds its own circuit (second field)");
}
fn points_fq() {
    let ok = matches!(symf::concrete::<Fq>(1, &[], &points::<Fq>), symf::Run::Pass);
    Fp::check(ok, "the points of the second field are as those of the first");
}
/// Membership for any index.
fn membership<M: Model>() {
    let mut is: Vec<u32> = (0..40).collect();
    for b in 0..32 {
        is.extend([1u32 << b, (1u32 << b).wrapping_sub(1), (1u32 << b).wrapping_add(1), u32::MAX >> b, !(1u32 << b)]);
    }
    let mut r = Rng::chosen::<M>();
    is.extend((0..20).map(|_| r.next() as u32));
    for n in [0usize, 1, 2, 3, 4, 5, 8, 9, 16, 17, 32] {
        let mut b = RegistryBuilder::<M, T>::new();
        for _ in 0..n {
            b = b.register_circuit(Prog::<M, 0>(Builder::<M>::new(0).body(0))).unwrap();
        }
        let g = b.finalize().unwrap();
        let size = n.next_power_of_two() as u64;
        for i in &is {
            M::check(g.circuit_in_domain(CircuitIndex::from_u32(*i)) == ((*i as u64) < size), "an index is in the domain exactly when it is below its size");
        }
    }
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C11", "restriction to an index", "RegistryBuilder::finalize, Registry::{circuit_xy,circuit_y,wx,wy,wxy,xy,at}, CircuitIndex::omega_j", indices, bound "48 registries of 0 to 9 circuits of every category at every domain point, all coefficients, x and y", weight 12);
    contract!(v, "C11", "restriction to an index, production rank", "Registry", indices_13, bound "1 registry of 3 circuits, rank 13, all coefficients, x and y", weight 2);
    contract!(v, "C11", "restriction to an index, 17 circuits", "Registry", indices_many, bound "1 registry of 17 circuits, all coefficients, x and y", weight 2);
    contract!(v, "C11", "any point", "Registry::{xy,wx,wy,wxy,at}, RegistryAt::{x,y,xy}, Domain::ell", anywhere, bound "14 registries of 1 to 9 circuits, all coefficients, w outside the domain, x and y", weight 5);
    contract!(v, "C11", "assembly by index", "Registry::assemble_with_alpha", assembles, bound "6 registries of 5 circuits, all coefficients and witnesses", weight 6);
    contract!(v, "C11", "capacity", "RegistryBuilder::finalize", capacity, bound "counts around the limit of rank 7", weight 3);
    explore!(v, "C11", "keys", "Registry::compute_registry_digest", digests::<Fp>, bound "random registries of 1 to 5 circuits and four single changes", weight 20);
    explore!(v, "C11", "points", "CircuitIndex::omega_j, OmegaKey", points::<Fp>, bound "ground: all indices below 2^16", weight 1);
    explore!(v, "C11", "points of the second field", "CircuitIndex::omega_j, OmegaKey", points_fq, bound "ground: all indices below 2^16", weight 1);
    explore!(v, "C11", "large registries", "OmegaKey, Registry::at", large_fp, bound "registries of 70, 128 and 8192 circuits, every index", weight 1);
    explore!(v, "C11", "large registries of the second field", "OmegaKey, Registry::at", large_fq, bound "registries of 128 and 8192 circuits, every index", weight 1);
    explore!(v, "C11", "membership", "Registry::circuit_in_domain, Domain::contains", membership::<Fp>, bound "registries of 0 to 32 circuits and 220 indices at every power of two", weight 1);
}
