//! Contracts of verification: the claims a proof makes, the polynomials of a claim, honest histories, and altered proofs.
use crate::Rng;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::Curve;
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::{ProductionRank, R, Rank, sparse};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::{Circuit, WithAux};
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_pasta::Pasta;
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::verif::{self as hook, Builder, Parts, Source, native, nested};
use ragu_pcd::{Application, ApplicationBuilder, Pcd, Proof};
use ragu_primitives::Element;
use std::borrow::Cow;
use std::sync::OnceLock;
use vcd::{Contract, Model, contract, explore};

type K = ProductionRank;
const N: usize = 4;
type App = Application<'static, Pasta, K, N>;
type Pr = Proof<Pasta, K>;
type Poly<F> = sparse::Polynomial<F, K>;

// ---- the claims of k proofs

/// What one claim is about, in terms of the names below.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Claim {
    what: String,
    /// components, with the proof each is taken from, in no order
    of: Vec<(String, usize)>,
    ky: String,
}
struct Recorder {
    k: usize,
    claims: Vec<(String, Vec<(String, usize)>)>,
}
impl Source for Recorder {
    type RxComponent = native::RxComponent;
    type Rx = (String, usize);
    type AppCircuitId = usize;
    fn rx(&self, c: native::RxComponent) -> impl Iterator<Item = (String, usize)> {
        (0..self.k).map(move |i| (format!("{c:?}"), i))
    }
    fn app_circuits(&self) -> impl Iterator<Item = usize> {
        0..self.k
    }
}
struct NestedRecorder(Recorder);
impl Source for NestedRecorder {
    type RxComponent = nested::RxIndex;
    type Rx = (String, usize);
    type AppCircuitId = ();
    fn rx(&self, c: nested::RxIndex) -> impl Iterator<Item = (String, usize)> {
        (0..self.0.k).map(move |i| (format!("{c:?}"), i))
    }
    fn app_circuits(&self) -> impl Iterator<Item = ()> {
        std::iter::empty()
    }
}
impl native::claims::Processor<(String, usize), usize> for Recorder {
    fn raw_claim(&mut self, a: (String, usize), b: (String, usize)) {
        // the left factor first
        self.claims.push((format!("raw {} . {}", a.0, b.0), vec![a, b]));
    }
    fn circuit(&mut self, app: usize, rx: (String, usize)) {
        self.claims.push((format!("application circuit of proof {app}"), vec![rx]));
    }
    fn internal_circuit(&mut self, id: native::InternalCircuitIndex, rxs: impl Iterator<Item = (String, usize)>) {
        self.claims.push((format!("circuit {id:?}"), rxs.collect()));
    }
    fn bonding(&mut self, id: native::InternalCircuitIndex, rxs: impl Iterator<Item = (String, usize)>) -> Result<()> {
        self.claims.push((format!("mask {id:?}"), rxs.collect()));
        Ok(())
    }
}
impl nested::claims::Processor<(String, usize)> for Recorder {
    fn internal_circuit(&mut self, id: nested::InternalCircuitIndex, rxs: impl Iterator<Item = (String, usize)>) {
        self.claims.push((format!("circuit {id:?}"), rxs.collect()));
    }
    fn bonding(&mut self, id: nested::InternalCircuitIndex, rxs: impl Iterator<Item = (String, usize)>) -> Result<()> {
        self.claims.push((format!("mask {id:?}"), rxs.collect()));
        Ok(())
    }
}
struct Labels(usize);
impl Labels {
    fn of(&self, s: &'static str) -> impl Iterator<Item = String> + Clone + use<> {
        (0..self.0).map(move |i| format!("{s} {i}"))
    }
}
impl native::claims::KySource for Labels {
    type Ky = String;
    fn raw_c(&self) -> impl Iterator<Item = String> {
        self.of("c")
    }
    fn application_ky(&self) -> impl Iterator<Item = String> {
        self.of("application")
    }
    fn unified_bridge_ky(&self) -> impl Iterator<Item = String> {
        self.of("bridge")
    }
    fn unified_ky(&self) -> impl Iterator<Item = String> + Clone {
        self.of("unified")
    }
    fn zero(&self) -> String {
        "zero".into()
    }
}
impl nested::claims::KySource for Labels {
    type Ky = String;
    fn one(&self) -> String {
        "one".into()
    }
    fn zero(&self) -> String {
        "zero".into()
    }
}
fn aligned(claims: Vec<(String, Vec<(String, usize)>)>, ky: impl Iterator<Item = String>) -> Vec<Claim> {
    let n = claims.len();
    let v: Vec<Claim> = claims
        .into_iter()
        .zip(ky)
        .map(|(c, ky)| {
            let mut of = c.1;
            of.sort();
            Claim { what: c.0, of, ky }
        })
        .collect();
    Fp::check(v.len() == n, "every claim has a value");
    v
}
fn claim(what: String, of: &[(&str, usize)], ky: String) -> Claim {
    let mut of: Vec<_> = of.iter().map(|(a, b)| (a.to_string(), *b)).collect();
    of.sort();
    Claim { what, of, ky }
}
fn same_claims(mut got: Vec<Claim>, mut want: Vec<Claim>, which: &str) {
    got.sort();
    want.sort();
    for c in &want {
        Fp::check(got.iter().filter(|x| *x == c).count() == want.iter().filter(|x| *x == c).count(), &format!("{which}: the claim {c:?} is made"));
    }
    for c in &got {
        Fp::check(want.contains(c), &format!("{which}: the claim {c:?} belongs"));
    }
    Fp::check(got.len() == want.len(), &format!("{which}: every claim is made once"));
}
/// The trace a circuit's claim is about: its own part, and the stages it reads.
const NATIVE: [(&str, &str, &[&str]); 5] = [
    ("Hashes1Circuit", "bridge", &["Rx(Hashes1)", "Rx(Preamble)", "Rx(OuterError)"]),
    ("Hashes2Circuit", "unified", &["Rx(Hashes2)", "Rx(OuterError)"]),
    ("InnerCollapseCircuit", "unified", &["Rx(InnerCollapse)", "Rx(Preamble)", "Rx(InnerError)", "Rx(OuterError)"]),
    ("OuterCollapseCircuit", "unified", &["Rx(OuterCollapse)", "Rx(Preamble)", "Rx(OuterError)"]),
    ("ComputeVCircuit", "unified", &["Rx(ComputeV)", "Rx(Preamble)", "Rx(Query)", "Rx(Eval)"]),
];
/// The polynomials that must lie within a mask.
const MASKS: [(&str, &[&str]); 8] = [
    ("PreambleStage", &["Rx(Preamble)"]),
    ("InnerErrorStage", &["Rx(InnerError)"]),
    ("OuterErrorStage", &["Rx(OuterError)"]),
    ("QueryStage", &["Rx(Query)"]),
    ("EvalStage", &["Rx(Eval)"]),
    ("InnerErrorFinalStaged", &["Rx(InnerCollapse)"]),
    ("OuterErrorFinalStaged", &["Rx(Hashes1)", "Rx(Hashes2)", "Rx(OuterCollapse)"]),
    ("EvalFinalStaged", &["Rx(ComputeV)"]),
];
fn native_claims() {
    for k in 1..4 {
        let source = Recorder { k, claims: vec![] };
        let mut p = Recorder { k, claims: vec![] };
        native::claims::build(&source, &mut p).unwrap();
        let got = aligned(p.claims, native::claims::ky_values(&Labels(k)));
        let mut want = vec![];
        for i in 0..k {
            want.push(claim("raw AbA . AbB".into(), &[("AbA", i), ("AbB", i)], format!("c {i}")));
            want.push(claim(format!("application circuit of proof {i}"), &[("Rx(Application)", i)], format!("application {i}")));
            for (id, ky, of) in NATIVE {
                want.push(claim(format!("circuit {id}"), &of.iter().map(|x| (*x, i)).collect::<Vec<_>>(), format!("{ky} {i}")));
            }
        }
        for (id, of) in MASKS {
            let of: Vec<_> = of.iter().flat_map(|x| (0..k).map(move |i| (*x, i))).collect();
            want.push(claim(format!("mask {id}"), &of, "zero".into()));
        }
        same_claims(got, want, &format!("{k} proofs"));
        // claims with values of their own come before those that must vanish, so that folding keeps the alignment
        let c = native::InternalCircuitIndex::ALL;
        Fp::check(c.iter().enumerate().all(|(i, x)| x.circuit_index() == CircuitIndex::new(i)), "internal circuits are numbered in order");
    }
}
fn nested_claims() {
    let source = NestedRecorder(Recorder { k: 1, claims: vec![] });
    let mut p = Recorder { k: 1, claims: vec![] };
    nested::claims::build(&source, &mut p).unwrap();
    let got = aligned(p.claims, nested::claims::ky_values(&Labels(1)));
    let steps = hook::num_steps(nested::NUM_ENDOSCALING_POINTS);
    let mut want = vec![];
    let names: Vec<String> = (0..steps).map(|i| format!("EndoscalingStep({i})")).collect();
    for s in &names {
        want.push(claim(format!("circuit {s}"), &[(s, 0), ("EndoscalarStage", 0), ("PointsStage", 0)], "one".into()));
    }
    for s in ["EndoscalarStage", "PointsStage", "BridgePreamble", "BridgeSPrime", "BridgeInnerError", "BridgeOuterError", "BridgeAB", "BridgeQuery", "BridgeF", "BridgeEval"] {
        want.push(claim(format!("mask {s}"), &[(s, 0)], "zero".into()));
    }
    want.push(claim("mask PointsFinalStaged".into(), &names.iter().map(|s| (&s[..], 0)).collect::<Vec<_>>(), "zero".into()));
    same_claims(got, want, "nested");
    let c = nested::InternalCircuitIndex::ALL;
    Fp::check(c.iter().enumerate().all(|(i, x)| x.circuit_index() == CircuitIndex::new(i)), "internal circuits are numbered in order");
}

// ---- the polynomials of a claim

type P7<M> = sparse::Polynomial<M, R<7>>;
/// Outputs the square of its witness plus a constant.
struct Square(u64);
impl<F: Field> Circuit<F> for Square {
    type Instance<'s> = F;
    type Witness<'s> = F;
    type Output = Kind![F; Element<'_, _>];
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, i: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>>
    where
        Self: 'dr,
    {
        Element::alloc(dr, i)
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, w: DriverValue<D, F>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        let x = Element::alloc(dr, w)?;
        let mut y = x.square(dr)?;
        for _ in 0..self.0 {
            y = y.add(dr, &x);
        }
        Ok(WithAux::new(y, D::unit()))
    }
}
fn some_poly<M: Model>(name: &str, at: &[usize]) -> P7<M> {
    let mut c = vec![M::ZERO; 128];
    for i in at {
        c[*i] = M::input(name);
    }
    P7::from_coeffs(c)
}
fn coeffs<M: Model>(p: &P7<M>) -> Vec<M> {
    let mut v: Vec<M> = p.iter_coeffs().collect();
    v.resize(128, M::ZERO);
    v
}
fn same_poly<M: Model>(a: &P7<M>, b: &[M], label: &str) {
    for (x, y) in coeffs(a).into_iter().zip(b) {
        M::check_eq(x, *y, label);
    }
}
fn polynomials<M: Model>() {
    let (y, z) = (M::input("y"), M::input("z"));
    M::fork_only(&[y, z]);
    M::opaque_repr();
    let mut b = RegistryBuilder::<M, R<7>>::new();
    for i in 0..3 {
        b = b.register_circuit(Square(i)).unwrap();
    }
    let g: Registry<'_, M, R<7>> = b.finalize().unwrap();
    // t(X, z) pairs a*b with -c: degree 4n-1-j for gate j, weighted z^2n-1-j + z^2n+j
    let tz = coeffs(&<R<7> as Rank>::tz(z));
    let mut zs = vec![M::ONE];
    for i in 0..127 {
        zs.push(zs[i] * z);
    }
    let n = 32;
    for (j, c) in tz.iter().enumerate() {
        let want = if j >= 3 * n { -(zs[2 * n - 1 - (127 - j)] + zs[2 * n + (127 - j)]) } else { M::ZERO };
        M::check_eq(*c, want, "t(X, z) has the gate terms");
    }
    let ps: Vec<P7<M>> = [&[0, 5, 40][..], &[1, 5, 127], &[0, 64, 65, 100], &[33]].iter().enumerate().map(|(i, at)| some_poly(&format!("p{i}_"), at)).collect();
    for id in 0..3 {
        let c = CircuitIndex::new(id);
        let sy = coeffs(&g.circuit_y(c, y));
        let p = &ps[id];
        let mut b: Builder<'_, '_, Cow<'_, P7<M>>, M, R<7>> = Builder::new(&g, y, z);
        b.circuit_impl(c, Cow::Borrowed(p));
        b.bonding_impl(c, Cow::Borrowed(p));
        M::check(b.a.len() == 2 && b.b.len() == 2, "a claim adds one left and one right polynomial");
        same_poly(&b.a[0], &coeffs(p), "the left of a circuit claim is the trace");
        same_poly(&b.a[1], &coeffs(p), "the left of a mask claim is the polynomial");
        let want: Vec<M> = (0..128).map(|i| coeffs(p)[i] * zs[i] + sy[i] + tz[i]).collect();
        same_poly(&b.b[0], &want, "the right of a circuit claim is r(zX) + s(X, y) + t(X, z)");
        same_poly(&b.b[1], &sy, "the right of a mask claim is s(X, y)");
    }
    let b: Builder<'_, '_, Cow<'_, P7<M>>, M, R<7>> = Builder::new(&g, y, z);
    for k in 1..=ps.len() {
        let sum: Vec<M> = (0..128).map(|i| ps[..k].iter().fold(M::ZERO, |a, p| a + coeffs(p)[i])).collect();
        same_poly(&hook::sum_polynomials(ps[..k].iter()), &sum, "traces are summed");
        let fold: Vec<M> = (0..128).map(|i| ps[..k].iter().fold(M::ZERO, |a, p| a * z + coeffs(p)[i])).collect();
        same_poly(&b.fold_bonding_polys(ps[..k].iter()), &fold, "polynomials under one mask are folded by powers of z");
    }
}

// ---- honest histories

/// Randomness for the prover and the verifier.
struct Coins(Rng);
impl rand::TryRng for Coins {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> std::result::Result<u32, Self::Error> {
        Ok(self.0.next() as u32)
    }
    fn try_next_u64(&mut self) -> std::result::Result<u64, Self::Error> {
        Ok(self.0.next())
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), Self::Error> {
        for b in d {
            *b = self.0.next() as u8;
        }
        Ok(())
    }
}
impl rand::TryCryptoRng for Coins {}

/// One element.
struct One;
impl Header<Fp> for One {
    const SUFFIX: Suffix = Suffix::new(0);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}
/// One element too, under another suffix that no step uses.
struct Other;
impl Header<Fp> for Other {
    const SUFFIX: Suffix = Suffix::new(7);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}
/// Two elements.
struct Two;
impl Header<Fp> for Two {
    const SUFFIX: Suffix = Suffix::new(1);
    type Data = (Fp, Fp);
    type Output = Kind![Fp; (Element<'_, _>, Element<'_, _>)];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, (Fp, Fp)>) -> Result<Bound<'dr, D, Self::Output>> {
        let a = Element::alloc(dr, w.as_ref().map(|w| w.0))?;
        let b = Element::alloc(dr, w.as_ref().map(|w| w.1))?;
        Ok((a, b))
    }
}
macro_rules! step {
    ($name:ident $i:literal $l:ty, $r:ty => $o:ty, |$dr:ident, $w:ident, $le:ident, $re:ident| $body:expr) => {
        #[derive(Clone, Copy)]
        struct $name;
        impl Step<Pasta> for $name {
            const INDEX: Index = Index::new($i);
            type Witness<'s> = Fp;
            type Aux<'s> = Fp;
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>, const H: usize>(
                &self,
                $dr: &mut D,
                $w: DriverValue<D, Fp>,
                l: DriverValue<D, <$l as Header<Fp>>::Data>,
                r: DriverValue<D, <$r as Header<Fp>>::Data>,
            ) -> Result<((Encoded<'dr, D, $l, H>, Encoded<'dr, D, $r, H>, Encoded<'dr, D, $o, H>), DriverValue<D, <$o as Header<Fp>>::Data>, DriverValue<D, Fp>)>
            where
                Self: 'dr,
            {
                let $le = Encoded::<'dr, D, $l, H>::new($dr, l)?;
                let $re = Encoded::<'dr, D, $r, H>::new($dr, r)?;
                let aux = Maybe::clone(&$w);
                let (out, data) = $body;
                Ok((($le, $re, Encoded::from_gadget(out)), data, aux))
            }
        }
    };
}
fn val<'dr, D: Driver<'dr>>(e: &Element<'dr, D>) -> DriverValue<D, D::F> {
    e.value().map(|x| *x)
}
// w^2 + w
step!(Seed 0 (), () => One, |dr, w, _l, _r| {
    let w = Element::alloc(dr, w)?;
    let s = w.square(dr)?;
    let o = s.add(dr, &w);
    let d = val(&o);
    (o, d)
});
// l * r + w
step!(Join 1 One, One => One, |dr, w, l, r| {
    let w = Element::alloc(dr, w)?;
    let s = l.as_gadget().mul(dr, r.as_gadget())?;
    let o = s.add(dr, &w);
    let d = val(&o);
    (o, d)
});
// (l, r * w)
step!(Pair 2 One, One => Two, |dr, w, l, r| {
    let w = Element::alloc(dr, w)?;
    let b = r.as_gadget().mul(dr, &w)?;
    let a = l.as_gadget().clone();
    let d = D::just(|| (*a.value().take(), *b.value().take()));
    ((a, b), d)
});
// l0 * r + l1
step!(Mix 3 Two, One => One, |dr, w, l, r| {
    let w = Element::alloc(dr, w)?;
    w.square(dr)?;
    let (a, b) = l.as_gadget();
    let s = a.mul(dr, r.as_gadget())?;
    let o = s.add(dr, b);
    let d = val(&o);
    (o, d)
});
fn params() -> &'static <Pasta as Cycle>::Params {
    static P: OnceLock<<Pasta as Cycle>::Params> = OnceLock::new();
    P.get_or_init(Pasta::generate)
}
fn app() -> App {
    ApplicationBuilder::<Pasta, K, N>::new().register(Seed).unwrap().register(Join).unwrap().register(Pair).unwrap().register(Mix).unwrap().finalize(params()).unwrap()
}
fn scalar(c: &mut Rng) -> Fp {
    (0..4).fold(Fp::ZERO, |a, _| a * Fp::from(1 << 32) * Fp::from(1 << 32) + Fp::from(c.next()))
}
fn accepted<H: Header<Fp>>(a: &App, p: &Pcd<Pasta, K, H>, c: &mut Coins, what: &str) {
    let r = a.verify(p, &mut *c);
    Fp::check(matches!(r, Ok(true)), &format!("{what}: honest proof-carrying data verifies (got {r:?})"));
}
fn commitments(p: &Pr, what: &str) {
    let (v, w) = hook::pairs(p);
    for (n, p, c) in v {
        Fp::check(p.commit_to_affine::<EqAffine>(Pasta::host_generators(params())) == c, &format!("{what}: the stored commitment to {n} commits to it"));
    }
    for (n, p, c) in w {
        Fp::check(p.commit_to_affine::<EpAffine>(Pasta::nested_generators(params())) == c, &format!("{what}: the stored commitment to bridge {n} commits to it"));
    }
}
struct Lab {
    app: App,
    c: Coins,
}
impl Lab {
    fn new() -> Lab {
        let r = Rng::chosen::<Fp>();
        Lab { app: app(), c: Coins(r) }
    }
    fn leaf(&mut self) -> (Pcd<Pasta, K, One>, Fp) {
        let w = scalar(&mut self.c.0);
        let (p, aux) = self.app.seed(&mut self.c, Seed, w).unwrap();
        Fp::check(aux == w, "a seed returns what its step reports");
        self.seen(&p, w * w + w, "seed");
        (p, w * w + w)
    }
    fn seen(&mut self, p: &Pcd<Pasta, K, One>, want: Fp, what: &str) {
        Fp::check(*p.data() == want, &format!("{what}: proof-carrying data carries what its step computed"));
        accepted(&self.app, p, &mut self.c, what);
    }
    fn join(&mut self, l: (Pcd<Pasta, K, One>, Fp), r: (Pcd<Pasta, K, One>, Fp)) -> (Pcd<Pasta, K, One>, Fp) {
        let w = scalar(&mut self.c.0);
        let (p, aux) = self.app.fuse(&mut self.c, Join, w, l.0, r.0).unwrap();
        Fp::check(aux == w, "a fuse returns what its step reports");
        let d = l.1 * r.1 + w;
        self.seen(&p, d, "fuse");
        (p, d)
    }
    fn again(&mut self, p: (Pcd<Pasta, K, One>, Fp)) -> (Pcd<Pasta, K, One>, Fp) {
        let q = self.app.rerandomize(p.0, &mut self.c).unwrap();
        self.seen(&q, p.1, "rerandomize");
        (q, p.1)
    }
    fn pair(&mut self, l: (Pcd<Pasta, K, One>, Fp), r: (Pcd<Pasta, K, One>, Fp)) -> (Pcd<Pasta, K, Two>, (Fp, Fp)) {
        let w = scalar(&mut self.c.0);
        let (p, _) = self.app.fuse(&mut self.c, Pair, w, l.0, r.0).unwrap();
        let d = (l.1, r.1 * w);
        Fp::check(*p.data() == d, "fuse: proof-carrying data carries what its step computed");
        accepted(&self.app, &p, &mut self.c, "fuse to a pair");
        (p, d)
    }
    fn mix(&mut self, l: (Pcd<Pasta, K, Two>, (Fp, Fp)), r: (Pcd<Pasta, K, One>, Fp)) -> (Pcd<Pasta, K, One>, Fp) {
        let w = scalar(&mut self.c.0);
        let (p, _) = self.app.fuse(&mut self.c, Mix, w, l.0, r.0).unwrap();
        let d = l.1.0 * r.1 + l.1.1;
        self.seen(&p, d, "fuse of a pair");
        (p, d)
    }
}
/// seed, fuse, fuse of fuses, a proof used twice
fn deep() {
    let l = &mut Lab::new();
    let a = l.leaf();
    let b = l.leaf();
    let ab = l.join(a.clone(), b);
    let x = l.join(ab.clone(), a);
    let y = l.join(x, ab);
    accepted(&l.app, &y.0, &mut l.c, "fuse, again");
    commitments(&hook::into_parts(y.0).0, "fuse of fuses");
}
/// both header types, and rerandomization of either
fn wide() {
    let l = &mut Lab::new();
    let a = l.leaf();
    let b = l.leaf();
    let p = l.pair(a.clone(), b);
    let q = l.app.rerandomize(p.0.clone(), &mut l.c).unwrap();
    Fp::check(*q.data() == p.1, "rerandomize: proof-carrying data keeps its data");
    accepted(&l.app, &q, &mut l.c, "rerandomized pair");
    let a = l.again(a);
    let x = l.mix((q, p.1), a.clone());
    let y = l.mix(p, x);
    l.join(a, y);
}
fn again() {
    let l = &mut Lab::new();
    let a = l.leaf();
    commitments(&hook::into_parts(a.0.clone()).0, "seed");
    let b = l.again(a);
    let b = l.again(b);
    let x = l.join(b.clone(), b);
    let x = l.again(x);
    commitments(&hook::into_parts(x.0).0, "rerandomize");
}
/// Applications without steps of their own, and the trivial header.
fn bare() {
    let c = &mut Coins(Rng::chosen::<Fp>());
    fn go<const H: usize>(c: &mut Coins) {
        let a = ApplicationBuilder::<Pasta, K, H>::new().finalize(params()).unwrap();
        let p = hook::trivial(&a).carry::<()>(());
        let q = a.rerandomize(p, c).unwrap();
        Fp::check(matches!(a.verify(&q, &mut *c), Ok(true)), "a rerandomized trivial proof verifies");
        let q = a.rerandomize(q, c).unwrap();
        Fp::check(matches!(a.verify(&q, &mut *c), Ok(true)), "a rerandomized trivial proof verifies");
        let (mut p, ()) = hook::into_parts(q);
        *hook::parts(&mut p).v += Fp::ONE;
        Fp::check(!matches!(a.verify(&p.carry::<()>(()), &mut *c), Ok(true)), "an altered rerandomized trivial proof is rejected");
    }
    go::<1>(c);
    go::<2>(c);
    go::<11>(c);
}

// ---- altered proofs

fn bump<F: PrimeField>(p: &mut Poly<F>, i: usize, d: F) {
    let mut c = vec![F::ZERO; i + 1];
    c[i] = d;
    p.add_assign(&Poly::from_coeffs(c));
}
/// An honest proof to alter.
struct Subject {
    l: Lab,
    proof: Pr,
    data: Fp,
    /// an honest proof from the same application
    other: Pr,
    other_data: Fp,
}
impl Subject {
    fn new() -> Subject {
        let mut l = Lab::new();
        let a = l.leaf();
        let b = l.leaf();
        let kind = l.c.0.below(4);
        let (p, q) = match kind {
            0 => (a, b),
            1 => (l.again(a), b),
            2 => (l.join(a.clone(), b.clone()), l.join(b, a)),
            _ => {
                let t = l.pair(a.clone(), b.clone());
                (l.mix(t, a.clone()), l.join(a, b))
            }
        };
        let (data, other_data) = (p.1, q.1);
        Subject { l, proof: hook::into_parts(p.0).0, data, other: hook::into_parts(q.0).0, other_data }
    }
    fn rejects(&mut self, what: &str, f: impl FnOnce(&mut Parts<'_, Pasta, K>)) {
        let mut p = self.proof.clone();
        f(&mut hook::parts(&mut p));
        self.refused(p, self.data, what);
    }
    fn refused(&mut self, p: Pr, data: Fp, what: &str) {
        let r = self.l.app.verify(&p.carry::<One>(data), &mut self.l.c);
        Fp::check(!matches!(r, Ok(true)), &format!("rejected: {what}"));
    }
    fn some(&mut self) -> Fp {
        let x = scalar(&mut self.l.c.0);
        if x == Fp::ZERO { Fp::ONE } else { x }
    }
    fn some_nested(&mut self) -> Fq {
        Fq::from(self.l.c.0.next() | 1)
    }
}
/// The positions a mask requires to vanish.
fn required<F: PrimeField>(g: &Registry<'_, F, K>, c: CircuitIndex) -> Vec<bool> {
    let y = F::from(0x1234567) + F::MULTIPLICATIVE_GENERATOR.invert().unwrap();
    let mut v: Vec<bool> = g.circuit_y(c, y).iter_coeffs().map(|c| c != F::ZERO).collect();
    v.resize(K::num_coeffs(), false);
    v.reverse();
    v
}
fn rx_position(name: &str) -> usize {
    // in the order of the hook's table
    ["application", "hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v", "preamble", "inner_error", "outer_error", "query", "eval"].iter().position(|n| *n == name).unwrap()
}
fn spread(v: &[usize], c: &mut Rng, n: usize) -> Vec<usize> {
    let mut o = vec![];
    if let (Some(a), Some(b)) = (v.first(), v.last()) {
        o.extend([*a, *b]);
        for _ in 0..n {
            o.push(v[c.below(v.len())]);
        }
    }
    o
}
use native::InternalCircuitIndex as Nc;
/// circuit, its own part, its final mask, the stages it reads
const USES: [(Nc, &str, Nc, &[&str]); 5] = [
    (Nc::Hashes1Circuit, "hashes_1", Nc::OuterErrorFinalStaged, &["preamble", "outer_error"]),
    (Nc::Hashes2Circuit, "hashes_2", Nc::OuterErrorFinalStaged, &["outer_error"]),
    (Nc::InnerCollapseCircuit, "inner_collapse", Nc::InnerErrorFinalStaged, &["preamble", "inner_error", "outer_error"]),
    (Nc::OuterCollapseCircuit, "outer_collapse", Nc::OuterErrorFinalStaged, &["preamble", "outer_error"]),
    (Nc::ComputeVCircuit, "compute_v", Nc::EvalFinalStaged, &["preamble", "query", "eval"]),
];
const STAGES: [(Nc, &str); 5] = [(Nc::PreambleStage, "preamble"), (Nc::InnerErrorStage, "inner_error"), (Nc::OuterErrorStage, "outer_error"), (Nc::QueryStage, "query"), (Nc::EvalStage, "eval")];
/// Every trace of a circuit, altered where only its own claim can notice.
fn traces() {
    let s = &mut Subject::new();
    for name in ["application", "hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v"] {
        let at: Vec<usize> = match USES.iter().find(|u| u.1 == name) {
            Some((_, _, fin, _)) => {
                let g = hook::registry(&s.l.app);
                let m = required(g, fin.circuit_index());
                (1..m.len()).filter(|i| !m[*i]).collect()
            }
            None => (1..K::num_coeffs()).collect(),
        };
        // positions that hold something: a changed one leaves no satisfied circuit
        let held: Vec<usize> = {
            let mut p = s.proof.clone();
            let v: Vec<Fp> = hook::parts(&mut p).rx[rx_position(name)].1.iter_coeffs().collect();
            at.into_iter().filter(|i| v.get(*i).is_some_and(|x| *x != Fp::ZERO)).collect()
        };
        Fp::check(!held.is_empty(), &format!("the trace {name} is not empty"));
        // the c wires: a * b = c fails wherever c alone changes
        let n = K::n();
        for i in spread(&held.iter().copied().filter(|i| *i < n).collect::<Vec<_>>(), &mut s.l.c.0, 1) {
            let d = s.some();
            s.rejects(&format!("the trace {name} altered in a product wire only"), |p| bump(p.rx[rx_position(name)].1, i, d));
        }
        let d = s.some();
        let i = rx_position(name);
        s.rejects(&format!("the trace {name} scaled"), |p| p.rx[i].1.scale(d + Fp::ONE));
        let (o, z) = (&s.other, s.l.c.0.below(2) == 0);
        let mut o = o.clone();
        let x = hook::parts(&mut o).rx[i].1.clone();
        s.rejects(&format!("the trace {name} replaced"), |p| *p.rx[i].1 = if z { Poly::new() } else { x });
    }
}
/// Every stage, altered and compensated so that only its mask can notice; and every final mask.
fn stages() {
    let s = &mut Subject::new();
    let g = hook::registry(&s.l.app);
    let masks: Vec<(Nc, Vec<bool>)> = Nc::ALL.into_iter().map(|c| (c, required(g, c.circuit_index()))).collect();
    let mask = |c: Nc| &masks.iter().find(|m| m.0 == c).unwrap().1;
    for (id, name) in STAGES {
        let users: Vec<_> = USES.iter().filter(|u| u.3.contains(&name)).collect();
        // outside the stage, inside every reader's own part: the sums do not change
        let at: Vec<usize> = (1..K::num_coeffs()).filter(|i| mask(id)[*i] && users.iter().all(|u| !mask(u.2)[*i])).collect();
        Fp::check(!at.is_empty(), "there is such a position");
        for i in spread(&at, &mut s.l.c.0, 1) {
            let d = s.some();
            s.rejects(&format!("stage {name} reaches outside its own positions"), |p| {
                bump(p.rx[rx_position(name)].1, i, d);
                for u in &users {
                    bump(p.rx[rx_position(u.1)].1, i, -d);
                }
            });
        }
        // moved from one stage to a later or earlier one, within what both readers sum
        for (_, other) in STAGES.iter().filter(|o| o.1 != name) {
            let same = USES.iter().all(|u| u.3.contains(&name) == u.3.contains(other));
            if same {
                let d = s.some();
                s.rejects(&format!("content of stage {name} moved to {other}"), |p| {
                    bump(p.rx[rx_position(name)].1, 3, d);
                    bump(p.rx[rx_position(other)].1, 3, -d);
                });
            }
        }
        // the stage alone
        let i = rx_position(name);
        let d = s.some();
        s.rejects(&format!("stage {name} scaled"), |p| p.rx[i].1.scale(d + Fp::ONE));
    }
    for (c, own, fin, reads) in USES {
        // content of a stage, kept in a circuit's own part instead: the sum does not change, if no other circuit reads the stage
        for stage in reads.iter().filter(|st| USES.iter().filter(|u| u.3.contains(*st)).count() == 1) {
            let id = STAGES.iter().find(|x| x.1 == *stage).unwrap().0;
            let at: Vec<usize> = (1..K::num_coeffs()).filter(|i| mask(fin)[*i] && !mask(id)[*i]).collect();
            for i in spread(&at, &mut s.l.c.0, 1) {
                let d = s.some();
                s.rejects(&format!("content of stage {stage} kept in {own}"), |p| {
                    bump(p.rx[rx_position(own)].1, i, d);
                    bump(p.rx[rx_position(stage)].1, i, -d);
                });
            }
        }
        // where a circuit skips a stage, its wires are unconstrained: only the final mask can notice
        let g = hook::registry(&s.l.app);
        let mut pr = s.proof.clone();
        let parts = hook::parts(&mut pr);
        let mut sum = parts.rx[rx_position(own)].1.clone();
        for st in reads {
            sum.add_assign(parts.rx[rx_position(st)].1);
        }
        let (y, z) = (Fp::from(0xabcdef1), Fp::from(0x1234565));
        let value = |p: &Poly<Fp>| {
            let mut b: Builder<'_, '_, Cow<'_, Poly<Fp>>, Fp, K> = Builder::new(g, y, z);
            b.circuit_impl(c.circuit_index(), Cow::Borrowed(p));
            p.revdot(&b.b[0])
        };
        let want = value(&sum);
        let d = Fp::from(77);
        let mut found = None;
        for i in (1..K::num_coeffs()).filter(|i| mask(fin)[*i]).step_by(97).chain((1..K::num_coeffs()).filter(|i| mask(fin)[*i] && reads.iter().all(|st| mask(STAGES.iter().find(|x| x.1 == *st).unwrap().0)[*i])).step_by(41)) {
            let mut q = sum.clone();
            bump(&mut q, i, d);
            if value(&q) == want {
                found = Some(i);
                break;
            }
        }
        if let Some(i) = found {
            s.rejects(&format!("an unconstrained wire of {own} set in a stage's place"), |p| bump(p.rx[rx_position(own)].1, i, d));
        }
    }
}
/// What the verifier evaluates, and what it compares with.
fn values() {
    let s = &mut Subject::new();
    let n = K::num_coeffs();
    // positions where the other factor does not vanish
    let across = |p: &Poly<Fp>| p.iter_coeffs().enumerate().filter(|(_, c)| *c != Fp::ZERO).map(|(i, _)| n - 1 - i).collect::<Vec<_>>();
    let (a, b) = {
        let p = hook::parts(&mut s.proof);
        (across(p.a), across(p.b))
    };
    for i in spread(&b, &mut s.l.c.0, 1) {
        let d = s.some();
        s.rejects("a folded left polynomial altered", |p| bump(p.a, i, d));
    }
    for i in spread(&a, &mut s.l.c.0, 1) {
        let d = s.some();
        s.rejects("a folded right polynomial altered", |p| bump(p.b, i, d));
        let d = s.some();
        s.rejects("the registry evaluation altered", |p| bump(p.registry_xy, i % 64, d));
    }
    let d = s.some();
    s.rejects("the folded value altered", |p| *p.c += d);
    s.rejects("the folded polynomials and their value scaled apart", |p| {
        p.a.scale(d + Fp::ONE);
    });
    s.rejects("the folded polynomials and their value replaced alike", |p| {
        p.a.scale(d + Fp::ONE);
        *p.c *= d + Fp::ONE;
    });
    s.rejects("the folded polynomials and their value zero", |p| {
        *p.a = Poly::new();
        *p.b = Poly::new();
        *p.c = Fp::ZERO;
    });
    s.rejects("the registry evaluation removed", |p| *p.registry_xy = Poly::new());
    let (x, y) = {
        let p = hook::parts(&mut s.proof);
        let get = |n: &str| *p.challenges.iter().find(|c| c.0 == n).unwrap().1;
        (get("x"), get("y"))
    };
    let swapped = hook::registry(&s.l.app).xy(y, x);
    s.rejects("the registry evaluated with x and y exchanged", |p| *p.registry_xy = swapped);
    // the registry is evaluated at a point that is not the proof's: what vanishes at all of the proof's own is seen
    let mut roots: Vec<Fp> = hook::parts(&mut s.proof).challenges.iter().map(|c| *c.1).collect();
    roots.extend([Fp::ZERO, Fp::ONE, CircuitIndex::new(0).omega_j()]);
    s.rejects("the registry evaluation altered by a polynomial that vanishes at every challenge of the proof", |p| {
        p.registry_xy.add_assign(&Poly::from_coeffs(ragu_arithmetic::poly_with_roots(&roots)));
    });
    // p, its commitment, its value
    let g = params();
    let commit = |p: &Poly<Fp>| p.commit_to_affine::<EqAffine>(Pasta::host_generators(g));
    let d = s.some();
    s.rejects("p replaced together with its commitment", |p| {
        bump(p.p, 5, d);
        *p.p_commitment = commit(p.p);
    });
    s.rejects("p altered by a polynomial that vanishes at u", |p| {
        let u = *p.challenges.iter().find(|c| c.0 == "u").unwrap().1;
        bump(p.p, 9, d);
        bump(p.p, 8, -d * u);
    });
    s.rejects("the commitment to p replaced", |p| *p.p_commitment = (p.p_commitment.to_curve() + EqAffine::generator()).to_affine());
    s.rejects("the commitment to p negated", |p| *p.p_commitment = -*p.p_commitment);
    s.rejects("the commitment to p removed", |p| *p.p_commitment = EqAffine::identity());
    s.rejects("p removed with its commitment", |p| {
        *p.p = Poly::new();
        *p.p_commitment = EqAffine::identity();
    });
    s.rejects("the value of p altered", |p| *p.v += d);
    s.rejects("p and its value altered together", |p| {
        bump(p.p, 0, d);
        *p.p_commitment = commit(p.p);
        *p.v += d;
    });
}
/// Every challenge and commitment that the circuits' claims are about.
fn transcript() {
    let s = &mut Subject::new();
    for i in 0..11 {
        let (d, mut name) = (s.some(), "");
        let mut p = s.proof.clone();
        {
            let q = hook::parts(&mut p);
            for (j, c) in q.challenges.into_iter().enumerate() {
                if i == j {
                    *c.1 += d;
                    name = c.0;
                }
            }
        }
        Fp::check(!name.is_empty(), "every challenge is altered");
        s.refused(p, s.data, &format!("challenge {name} altered"));
    }
    for i in 0..8 {
        let mut name = "";
        let mut p = s.proof.clone();
        {
            let q = hook::parts(&mut p);
            for (j, c) in q.bridges.into_iter().enumerate() {
                if i == j {
                    *c.2 = (c.2.to_curve() + EpAffine::generator()).to_affine();
                    name = c.0;
                }
            }
        }
        Fp::check(!name.is_empty(), "every bridge commitment is altered");
        s.refused(p, s.data, &format!("commitment to bridge {name} altered"));
    }
    // exchanging two leaves any unordered combination of them as it was
    for (a, b) in [("mu", "nu"), ("mu", "mu_prime"), ("nu", "nu_prime"), ("w", "x"), ("y", "z"), ("alpha", "u"), ("u", "pre_beta")] {
        let mut p = s.proof.clone();
        {
            let q = hook::parts(&mut p);
            let get = |n: &str| q.challenges.iter().position(|c| c.0 == n).unwrap();
            let (i, j) = (get(a), get(b));
            let (x, y) = (*q.challenges[i].1, *q.challenges[j].1);
            let mut v = q.challenges;
            *v[i].1 = y;
            *v[j].1 = x;
        }
        s.refused(p, s.data, &format!("challenges {a} and {b} exchanged"));
    }
}
/// Headers, data, and the circuit they are claimed of.
fn instance() {
    let s = &mut Subject::new();
    for side in 0..2 {
        for i in 0..N {
            let d = s.some();
            s.rejects(&format!("element {i} of header {side} altered"), |p| p.headers[side][i] += d);
        }
        for n in [0, 1, N - 1, N + 1, 2 * N] {
            s.rejects(&format!("header {side} of length {n}"), |p| p.headers[side].resize(n, Fp::ZERO));
        }
        s.rejects("the headers laid out differently", |p| {
            let x = p.headers[side].pop().unwrap();
            p.headers[1 - side].push(x);
        });
    }
    let d = s.some();
    for x in [s.data + d, Fp::ZERO, Fp::ONE, -s.data, s.other_data] {
        s.refused(s.proof.clone(), x, "other data attached");
    }
    let r = s.l.app.verify(&s.proof.clone().carry::<Other>(s.data), &mut s.l.c);
    Fp::check(!matches!(r, Ok(true)), "rejected: the data attached under another header");
    let r = s.l.app.verify(&s.proof.clone().carry::<()>(()), &mut s.l.c);
    Fp::check(!matches!(r, Ok(true)), "rejected: no data attached");
    let r = s.l.app.verify(&s.proof.clone().carry::<Two>((s.data, Fp::ZERO)), &mut s.l.c);
    Fp::check(!matches!(r, Ok(true)), "rejected: the data attached as a pair");
    let real = hook::circuit_of(&s.proof);
    for c in (0..20).chain([31, 32, 33, 63, 64, 1 << 20, u32::MAX as usize]) {
        if CircuitIndex::new(c) != real {
            s.rejects(&format!("made by circuit {c}"), |p| *p.circuit_id = CircuitIndex::new(c));
        }
    }
    // the application's part of another honest proof
    let mut o = s.other.clone();
    let o = hook::parts(&mut o);
    let mut p = s.proof.clone();
    {
        let q = hook::parts(&mut p);
        *q.circuit_id = *o.circuit_id;
        *q.headers[0] = o.headers[0].clone();
        *q.headers[1] = o.headers[1].clone();
        *q.rx.into_iter().next().unwrap().1 = o.rx.into_iter().next().unwrap().1.clone();
    }
    let alike = {
        let (mut a, mut b) = (s.proof.clone(), p.clone());
        let (a, b) = (hook::parts(&mut a), hook::parts(&mut b));
        a.headers[0] == b.headers[0] && a.headers[1] == b.headers[1]
    };
    if !alike {
        s.refused(p, s.other_data, "the application's part of another proof");
    }
    s.refused(hook::trivial(&s.l.app), s.data, "the trivial proof");
    let t = hook::trivial(&s.l.app);
    let r = s.l.app.verify(&t.carry::<()>(()), &mut s.l.c);
    Fp::check(!matches!(r, Ok(true)), "rejected: the trivial proof");
}
/// The scalar-field part.
fn nested_parts() {
    use nested::InternalCircuitIndex as Ic;
    let s = &mut Subject::new();
    let g = hook::nested_registry(&s.l.app);
    let masks: Vec<(Ic, Vec<bool>)> = Ic::ALL.into_iter().map(|c| (c, required(g, c.circuit_index()))).collect();
    let mask = |c: Ic| &masks.iter().find(|m| m.0 == c).unwrap().1;
    let n = K::num_coeffs();
    let steps = hook::num_steps(nested::NUM_ENDOSCALING_POINTS);
    let fin = mask(Ic::PointsFinalStaged);
    for k in 0..steps {
        let held: Vec<usize> = {
            let mut p = s.proof.clone();
            let v: Vec<Fq> = hook::parts(&mut p).steps[k].iter_coeffs().collect();
            (1..K::n().min(v.len())).filter(|i| !fin[*i] && v[*i] != Fq::ZERO).collect()
        };
        for i in spread(&held, &mut s.l.c.0, 0) {
            let d = s.some_nested();
            s.rejects(&format!("the trace of scaling step {k} altered in a product wire only"), |p| bump(&mut p.steps[k], i, d));
        }
        let d = s.some_nested();
        s.rejects(&format!("the trace of scaling step {k} scaled"), |p| p.steps[k].scale(d + Fq::ONE));
    }
    if steps > 1 {
        s.rejects("scaling steps exchanged", |p| p.steps.swap(0, 1));
    }
    for (id, points) in [(Ic::EndoscalarStage, false), (Ic::PointsStage, true)] {
        let at: Vec<usize> = (1..n).filter(|i| mask(id)[*i] && !fin[*i]).collect();
        for i in spread(&at, &mut s.l.c.0, 1) {
            let d = s.some_nested();
            s.rejects(&format!("{id:?} reaches outside its own positions"), |p| {
                bump(if points { &mut *p.points } else { &mut *p.endoscalar }, i, d);
                p.steps.iter_mut().for_each(|x| bump(x, i, -d));
            });
        }
        let at: Vec<usize> = (1..n).filter(|i| !mask(id)[*i] && fin[*i]).collect();
        for i in spread(&at, &mut s.l.c.0, 1) {
            let d = s.some_nested();
            s.rejects(&format!("content of {id:?} kept in the steps' own parts"), |p| {
                bump(if points { &mut *p.points } else { &mut *p.endoscalar }, i, d);
                p.steps.iter_mut().for_each(|x| bump(x, i, -d));
            });
        }
        let d = s.some_nested();
        s.rejects(&format!("{id:?} scaled"), |p| if points { p.points.scale(d + Fq::ONE) } else { p.endoscalar.scale(d + Fq::ONE) });
    }
    let d = s.some_nested();
    let i = (1..n).find(|i| mask(Ic::EndoscalarStage)[*i] && !mask(Ic::PointsStage)[*i]).unwrap();
    s.rejects("content of the points kept with the endoscalar", |p| {
        bump(p.points, i, -d);
        bump(p.endoscalar, i, d);
    });
    let bridges = [Ic::BridgePreamble, Ic::BridgeSPrime, Ic::BridgeInnerError, Ic::BridgeOuterError, Ic::BridgeAB, Ic::BridgeQuery, Ic::BridgeF, Ic::BridgeEval];
    for (k, id) in bridges.into_iter().enumerate() {
        let at: Vec<usize> = (1..n).filter(|i| mask(id)[*i]).collect();
        for i in spread(&at, &mut s.l.c.0, 1) {
            let d = s.some_nested();
            s.rejects(&format!("{id:?} reaches outside its own positions"), |p| bump(p.bridges[k].1, i, d));
        }
    }
}

pub fn register(v: &mut Vec<Contract>) {
    explore!(v, "C20", "claims of the circuits' field", "native::claims::{build,ky_values}, native::InternalCircuitIndex", native_claims, bound "ground: one, two and three proofs");
    explore!(v, "C20", "claims of the scalar field", "nested::claims::{build,ky_values}, nested::InternalCircuitIndex", nested_claims, bound "ground: one proof");
    contract!(v, "C20", "polynomials of a claim", "internal::claims::{Builder,sum_polynomials}, Rank::tz", polynomials, bound "three circuits at rank 7, four polynomials of up to four unknown coefficients each; all values", weight 20);
    explore!(v, "C20", "histories: fuses of fuses", "Application::{seed,fuse,verify}", deep, bound "five proofs", weight 1);
    explore!(v, "C20", "histories: two header types", "Application::{seed,fuse,rerandomize,verify}", wide, bound "eight proofs", weight 1);
    explore!(v, "C20", "histories: rerandomization", "Application::{seed,fuse,rerandomize,verify}", again, bound "five proofs", weight 1);
    explore!(v, "C20", "histories: no steps", "Application::{rerandomize,verify}", bare, bound "two proofs at each of three header sizes", weight 1);
    explore!(v, "C20", "altered circuit traces", "Application::verify, native::claims, internal::claims", traces, bound "six traces of a proof of one of four kinds, up to five alterations each", weight 1);
    explore!(v, "C20", "altered stages", "Application::verify, native::claims, internal::claims", stages, bound "five stages and three final masks of a proof of one of four kinds, compensated so that one claim fails", weight 1);
    explore!(v, "C20", "altered folded polynomials", "Application::verify", values, bound "a proof of one of four kinds, some twenty alterations", weight 1);
    explore!(v, "C20", "altered challenges and commitments", "Application::verify, unified::Output", transcript, bound "eleven challenges and eight commitments of a proof of one of four kinds", weight 1);
    explore!(v, "C20", "altered headers, data and circuit", "Application::verify, preamble::ProofInputs", instance, bound "a proof of one of four kinds, some fifty alterations", weight 1);
    explore!(v, "C20", "altered scalar-field parts", "Application::verify, nested::claims, internal::claims", nested_parts, bound "a proof of one of four kinds, every step, stage and bridge", weight 1);
}
