"""C20, unbounded: verification accepts exactly when every check holds, whatever the proof, and what a claim's two polynomials are."""
import re

from field import prelude
from verus import Lost, mask, split_args, unbrace

VERIFY = "crates/ragu_pcd/src/verify.rs"
CLAIMS = "crates/ragu_pcd/src/internal/claims.rs"
NATIVE = "crates/ragu_pcd/src/internal/native/claims.rs"
NESTED = "crates/ragu_pcd/src/internal/nested/claims.rs"

ASSUME = [
    "the values k(y) and their order, and the table of claims a proof has to satisfy, are what the contracts of the symbolic back end establish",
    "polynomial arithmetic and commitment (C07), registry evaluation (C11); one abstract field stands for both fields of the cycle",
]

SPEC = """
global size_of usize == 8;
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
pub struct Error {}
#[verifier::external_body] pub struct Poly { x: u64 }
#[verifier::external_body] #[derive(Copy)] pub struct Point { x: u64 }
impl Clone for Point { #[verifier::external_body] fn clone(&self) -> (r: Point) ensures r == *self { *self } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { *self == *o } }
impl PartialEq for Point { #[verifier::external_body] fn eq(&self, o: &Point) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Point { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Point) -> bool { *self == *o } }
pub uninterp spec fn dot(a: Poly, b: Poly) -> F;
pub uninterp spec fn at(p: Poly, x: F) -> F;
pub uninterp spec fn commitment(p: Poly, g: Gens) -> Point;
pub uninterp spec fn padd(a: Poly, b: Poly) -> Poly;
pub uninterp spec fn pdilate(a: Poly, z: F) -> Poly;
#[verifier::external_body] pub struct Gens { x: u64 }
#[verifier::external_body] pub struct Params { x: u64 }
pub uninterp spec fn gens_of(p: Params) -> Gens;
#[verifier::external_body] fn generators(p: &Params) -> (r: &Gens) ensures *r == gens_of(*p) { unimplemented!() }
impl Poly {
    #[verifier::external_body] pub fn revdot(&self, o: &Poly) -> (r: F) ensures r == dot(*self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn eval(&self, x: F) -> (r: F) ensures r == at(*self, x) { unimplemented!() }
    #[verifier::external_body] pub fn commit_to_affine(&self, g: &Gens) -> (r: Point) ensures r == commitment(*self, *g) { unimplemented!() }
    #[verifier::external_body] pub fn dilate(&mut self, z: F) ensures *final(self) == pdilate(*old(self), z) { unimplemented!() }
    #[verifier::external_body] pub fn add_assign(&mut self, o: &Poly) ensures *final(self) == padd(*old(self), *o) { unimplemented!() }
    #[verifier::external_body] pub fn borrow(&self) -> (r: &Poly) ensures r == self { self }
}
impl Clone for Poly { #[verifier::external_body] fn clone(&self) -> (r: Poly) ensures r == *self { unimplemented!() } }
#[derive(Copy, Clone)] pub struct CircuitIndex { pub i: u32 }
#[verifier::external_body] pub struct Registry { x: u64 }
pub uninterp spec fn in_domain(r: Registry, i: CircuitIndex) -> bool;
pub uninterp spec fn mwxy(r: Registry, w: F, x: F, y: F) -> F;
pub uninterp spec fn sy(r: Registry, i: CircuitIndex, y: F) -> Poly;
pub uninterp spec fn tz_(z: F) -> Poly;
impl Registry {
    #[verifier::external_body] pub fn circuit_in_domain(&self, i: CircuitIndex) -> (r: bool) ensures r == in_domain(*self, i) { unimplemented!() }
    #[verifier::external_body] pub fn wxy(&self, w: F, x: F, y: F) -> (r: F) ensures r == mwxy(*self, w, x, y) { unimplemented!() }
    #[verifier::external_body] pub fn circuit_y(&self, i: CircuitIndex, y: F) -> (r: Poly) ensures r == sy(*self, i, y) { unimplemented!() }
}
"""
BUILDER = """
pub struct Builder<'m> { pub registry: &'m Registry, pub y: F, pub z: F, pub tz: Poly, pub a: Vec<Poly>, pub b: Vec<Poly> }
impl<'m> Builder<'m> {
    pub open spec fn same(&self, o: &Builder) -> bool { self.registry == o.registry && self.y == o.y && self.z == o.z && self.tz == o.tz }
    pub open spec fn pushed(&self, o: &Builder, a: Poly, b: Poly) -> bool { self.same(o) && self.a@ == o.a@.push(a) && self.b@ == o.b@.push(b) }
    /// C20: the right-hand polynomial of a circuit's claim
    pub open spec fn circuit_b(&self, i: CircuitIndex, rx: Poly) -> Poly { padd(padd(pdilate(rx, self.z), sy(*self.registry, i, self.y)), self.tz) }
}
/// addition of polynomials is commutative and associative
#[verifier::external_body] proof fn any_order(a: Poly, b: Poly, c: Poly) ensures padd(padd(a, b), c) == padd(padd(a, b), c), padd(padd(a, c), b) == padd(padd(a, b), c), padd(padd(b, a), c) == padd(padd(a, b), c), padd(padd(b, c), a) == padd(padd(a, b), c), padd(padd(c, a), b) == padd(padd(a, b), c), padd(padd(c, b), a) == padd(padd(a, b), c), padd(a, padd(b, c)) == padd(padd(a, b), c), padd(a, padd(c, b)) == padd(padd(a, b), c), padd(b, padd(a, c)) == padd(padd(a, b), c), padd(b, padd(c, a)) == padd(padd(a, b), c), padd(c, padd(a, b)) == padd(padd(a, b), c), padd(c, padd(b, a)) == padd(padd(a, b), c) {}
/// polynomials to come
pub struct It<'a> { pub v: Vec<&'a Poly>, pub at: usize }
impl<'a> It<'a> {
    pub open spec fn rest(&self) -> Seq<Poly> { Seq::new((self.v.len() - self.at) as nat, |i: int| *self.v[self.at + i]) }
    pub open spec fn ok(&self) -> bool { self.at <= self.v.len() }
    fn next(&mut self) -> (r: Option<&'a Poly>) requires old(self).ok()
        ensures final(self).ok(), r.is_some() == (old(self).rest().len() > 0), r.is_some() ==> *r.unwrap() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), r.is_none() ==> final(self).rest() == old(self).rest()
    { let ghost o = *self; if self.at < self.v.len() { let x = self.v[self.at]; self.at = self.at + 1; proof { assert(self.rest() =~= o.rest().skip(1)); } Some(x) } else { None } }
}
/// in order, from the first
pub open spec fn total(s: Seq<Poly>) -> Poly decreases s.len() { if s.len() <= 1 { s[0] } else { padd(total(s.drop_last()), s.last()) } }
pub uninterp spec fn pscale(a: Poly, z: F) -> Poly;
pub open spec fn horner(s: Seq<Poly>, z: F) -> Poly decreases s.len() { if s.len() == 0 { pzero() } else { padd(pscale(horner(s.drop_last(), z), z), s.last()) } }
pub uninterp spec fn pzero() -> Poly;
pub open spec fn folded(s: Seq<Poly>, z: F) -> Poly { if s.len() == 1 { s[0] } else { horner(s, z) } }
/// Polynomial::fold: Horner's rule (C19)
#[verifier::external_body] fn fold_all(a: &Poly, b: &Poly, rest: It, z: F) -> (r: Poly) ensures r == horner(seq![*a, *b] + rest.rest(), z) { unimplemented!() }
#[verifier::external_body] fn rank_tz(z: F) -> (r: Poly) ensures r == tz_(z) { unimplemented!() }
#[derive(Copy, Clone)] pub struct InternalCircuitIndex { pub i: u32 }
pub uninterp spec fn index_of(i: InternalCircuitIndex) -> CircuitIndex;
impl InternalCircuitIndex { #[verifier::external_body] pub fn circuit_index(self) -> (r: CircuitIndex) ensures r == index_of(self) { unimplemented!() } }
"""
SUM = "requires rxs.ok(), rxs.rest().len() > 0 ensures r == total(rxs.rest()),"
FOLD = "requires rxs.ok(), rxs.rest().len() > 0 ensures r == folded(rxs.rest(), self.z),"
CIRCUIT = "ensures final(self).pushed(old(self), a, old(self).circuit_b(circuit_id, a)),"
BONDING = "ensures final(self).pushed(old(self), a, sy(*old(self).registry, circuit_id, old(self).y)),"
STUBS = f"""
#[verifier::external_body] fn sum_polynomials(rxs: It) -> (r: Poly) {SUM} {{ unimplemented!() }}
impl<'m> Builder<'m> {{
    #[verifier::external_body] fn fold_bonding_polys(&self, rxs: It) -> (r: Poly) {FOLD} {{ unimplemented!() }}
    #[verifier::external_body] fn circuit_impl(&mut self, circuit_id: CircuitIndex, a: Poly) {CIRCUIT} {{ unimplemented!() }}
    #[verifier::external_body] fn bonding_impl(&mut self, circuit_id: CircuitIndex, a: Poly) {BONDING} {{ unimplemented!() }}
}}
"""
COW = [(r"Cow::Borrowed\((\w+)\)", r"\1.clone()", "a borrowed value"), (r"Cow::Owned\(", "(", "an owned value")]


def opt(*rewrites):
    """Rewrites that need not apply."""

    def f(body):
        for p, r, _why in rewrites:
            body = re.sub(p, r, body)
        return body

    return (f, "; ".join(w for _, _, w in rewrites))


COWS = opt(*COW)


def drain(body):
    """A loop over the rest of the iterator calls next until there is none."""
    h = re.search(r"for (\w+) in (\w+) \{", body)
    if not h:
        raise Lost("the loop over the polynomials not found")
    s = re.search(r"let mut (\w+) = \w+\.clone\(\);", body)
    if not s:
        raise Lost("the running sum not found")
    inv = f"invariant_except_break {h[2]}.ok(), {s[1]} == total(all_.take(all_.len() - {h[2]}.rest().len())), 2 <= all_.len() - {h[2]}.rest().len() <= all_.len(), {h[2]}.rest() == all_.skip(all_.len() - {h[2]}.rest().len()), ensures {s[1]} == total(all_), decreases {h[2]}.rest().len(),"
    pre = f"proof {{ assert({h[2]}.rest() =~= all_.skip(2)); assert(all_.take(2).drop_last() =~= all_.take(1)); assert(total(all_.take(1)) == all_[0]); assert(all_.skip(all_.len() as int) =~= Seq::empty()); }}"
    step = f"let ghost k_ = all_.len() - {h[2]}.rest().len(); proof {{ if {h[2]}.rest().len() > 0 {{ assert(all_.take(k_ + 1).drop_last() =~= all_.take(k_)); assert(all_.skip(k_).skip(1) =~= all_.skip(k_ + 1)); }} else {{ assert(all_.take(k_) =~= all_); }} }}"
    return body[:h.start()] + f"{pre} loop {inv} {{ {step} let {h[1]} = match {h[2]}.next() {{ Some(x__) => x__, None => break }}; " + body[h.end():]


PROOF = """
pub struct App_ { pub circuit_id: CircuitIndex, pub left_header: Vec<F>, pub right_header: Vec<F> }
pub struct AbNative { pub c: F }
pub struct Ab { pub native: AbNative }
pub struct PNative { pub poly: Poly, pub v: F, pub commitment: Point }
pub struct P { pub native: PNative }
pub struct Challenges { pub u: F, pub x: F, pub y: F, pub w: F, pub z: F }
pub struct QueryNative { pub registry_xy_poly: Poly }
pub struct Query { pub native: QueryNative }
pub struct Proof { pub application: App_, pub ab: Ab, pub p: P, pub challenges: Challenges, pub query: Query }
#[derive(Copy)] #[verifier::external_body] pub struct Data { x: u64 }
impl Clone for Data { #[verifier::external_body] fn clone(&self) -> (r: Data) ensures r == *self { *self } }
pub struct Pcd { pub proof_: Proof, pub data_: Data }
impl Pcd {
    pub fn proof(&self) -> (r: &Proof) ensures *r == self.proof_ { &self.proof_ }
    pub fn data(&self) -> (r: &Data) ensures *r == self.data_ { &self.data_ }
}
pub struct Application { pub native_registry: Registry, pub nested_registry: Registry, pub params: Params }
/// a source of random field elements
pub struct Rng { pub drawn: Ghost<int> }
pub uninterp spec fn coin(k: int) -> F;
#[verifier::external_body] fn random(rng: &mut Rng) -> (r: F) ensures r == coin(old(rng).drawn@), final(rng).drawn@ == old(rng).drawn@ + 1 { unimplemented!() }
/// the circuit code that computes k(y) on an emulator
pub struct Dr { pub x: u64 }
#[verifier::external_body] fn emulator() -> Dr { unimplemented!() }
#[verifier::external_body] pub struct Element { x: u64 }
impl Element {
    pub uninterp spec fn v(&self) -> F;
    #[verifier::external_body] fn alloc(dr: &mut Dr, v: F) -> (r: Result<Element, Error>) ensures r.is_ok() ==> r->Ok_0.v() == v { unimplemented!() }
    #[verifier::external_body] fn taken(&self) -> (r: F) ensures r == self.v() { unimplemented!() }
}
pub uninterp spec fn ky_unified(p: Proof, d: Data, y: F) -> F;
pub uninterp spec fn ky_bridge(p: Proof, d: Data, y: F) -> F;
pub uninterp spec fn ky_application(p: Proof, d: Data, y: F) -> F;
#[verifier::external_body] pub struct ProofInputs { x: u64 }
impl ProofInputs {
    pub uninterp spec fn of(&self) -> (Proof, Data);
    #[verifier::external_body] fn alloc_for_verify(dr: &mut Dr, p: &Proof, d: Data) -> (r: Result<ProofInputs, Error>) ensures r.is_ok() ==> r->Ok_0.of() == (*p, d) { unimplemented!() }
    #[verifier::external_body] fn unified_ky_values(&self, dr: &mut Dr, y: &Element) -> (r: Result<(Element, Element), Error>) ensures r.is_ok() ==> r->Ok_0.0.v() == ky_unified(self.of().0, self.of().1, y.v()) && r->Ok_0.1.v() == ky_bridge(self.of().0, self.of().1, y.v()) { unimplemented!() }
    #[verifier::external_body] fn application_ky(&self, dr: &mut Dr, y: &Element) -> (r: Result<Element, Error>) ensures r.is_ok() ==> r->Ok_0.v() == ky_application(self.of().0, self.of().1, y.v()) { unimplemented!() }
}
/// the claims of a proof, in order
pub uninterp spec fn native_claims_of(p: Proof, r: Registry, y: F, z: F) -> (Seq<Poly>, Seq<Poly>);
pub uninterp spec fn nested_claims_of(p: Proof, r: Registry, y: F, z: F) -> (Seq<Poly>, Seq<Poly>);
pub struct NativeSource<'a> { pub proof: &'a Proof }
pub struct NestedSource<'a> { pub proof: &'a Proof }
impl<'m> Builder<'m> { #[verifier::external_body] fn new(registry: &'m Registry, y: F, z: F) -> (r: Builder<'m>) ensures r.registry == registry, r.y == y, r.z == z, r.tz == tz_(z), r.a.len() == 0, r.b.len() == 0 { unimplemented!() } }
#[verifier::external_body] fn build_native(s: &NativeSource, b: &mut Builder) -> (r: Result<(), Error>) requires old(b).a.len() == 0, old(b).b.len() == 0, old(b).tz == tz_(old(b).z) ensures r.is_ok() ==> final(b).same(old(b)) && final(b).a.len() == final(b).b.len() && (final(b).a@, final(b).b@) == native_claims_of(*s.proof, *old(b).registry, old(b).y, old(b).z) { unimplemented!() }
#[verifier::external_body] fn build_nested(s: &NestedSource, b: &mut Builder) -> (r: Result<(), Error>) requires old(b).a.len() == 0, old(b).b.len() == 0, old(b).tz == tz_(old(b).z) ensures r.is_ok() ==> final(b).same(old(b)) && final(b).a.len() == final(b).b.len() && (final(b).a@, final(b).b@) == nested_claims_of(*s.proof, *old(b).registry, old(b).y, old(b).z) { unimplemented!() }
pub struct NativeKySource { pub raw_c: F, pub application_ky: F, pub unified_bridge_ky: F, pub unified_ky: F }
pub struct NestedKySource { pub x: u8 }
impl NestedKySource { #[verifier::external_body] fn new() -> NestedKySource { unimplemented!() } }
pub open spec fn native_ky(s: NativeKySource, i: int) -> F { if i == 0 { s.raw_c } else if i == 1 { s.application_ky } else if i == 2 { s.unified_bridge_ky } else if i <= 6 { s.unified_ky } else { fzero() } }
pub uninterp spec fn nested_circuits() -> int;
pub open spec fn nested_ky(i: int) -> F { if i < nested_circuits() { fone() } else { fzero() } }
/// as many of the values as there are claims
#[verifier::external_body] fn native_kys(s: &NativeKySource, n: usize) -> (r: Vec<F>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == native_ky(*s, i) { unimplemented!() }
#[verifier::external_body] fn nested_kys(s: &NestedKySource, n: usize) -> (r: Vec<F>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == nested_ky(i) { unimplemented!() }
pub open spec fn kys_of(pcd: Pcd, y: F) -> NativeKySource { NativeKySource { raw_c: pcd.proof_.ab.native.c, application_ky: ky_application(pcd.proof_, pcd.data_, y), unified_bridge_ky: ky_bridge(pcd.proof_, pcd.data_, y), unified_ky: ky_unified(pcd.proof_, pcd.data_, y) } }
pub open spec fn native_hold(app: Application, pcd: Pcd, y: F, z: F) -> bool { let c = native_claims_of(pcd.proof_, app.native_registry, y, z); forall|i: int| 0 <= i < c.0.len() ==> dot(#[trigger] c.0[i], c.1[i]) == native_ky(kys_of(pcd, y), i) }
pub open spec fn nested_hold(app: Application, pcd: Pcd, y: F, z: F) -> bool { let c = nested_claims_of(pcd.proof_, app.nested_registry, y, z); forall|i: int| 0 <= i < c.0.len() ==> dot(#[trigger] c.0[i], c.1[i]) == nested_ky(i) }
/// C20: everything verification has to check, at the given challenges
pub open spec fn holds(app: Application, pcd: Pcd, h: usize, w: F, y: F, z: F, yn: F, zn: F) -> bool {
    let p = pcd.proof_;
    in_domain(app.native_registry, p.application.circuit_id) && p.application.left_header.len() == h && p.application.right_header.len() == h
    && native_hold(app, pcd, y, z) && nested_hold(app, pcd, yn, zn)
    && at(p.p.native.poly, p.challenges.u) == p.p.native.v && commitment(p.p.native.poly, gens_of(app.params)) == p.p.native.commitment
    && at(p.query.native.registry_xy_poly, w) == mwxy(app.native_registry, w, p.challenges.x, p.challenges.y)
}
pub open spec fn distinct(i: int, j: int, k: int, l: int, m: int) -> bool { i != j && i != k && i != l && i != m && j != k && j != l && j != m && k != l && k != m && l != m }
"""


def emulated(body):
    """emulate_wireless(values, closure) runs the closure on an emulator; the closure is inlined."""
    h = re.search(r"Emulator::emulate_wireless\(", mask(body))
    if not h:
        raise Lost("emulate_wireless not found")
    a, c = split_args(body, h.end() - 1)
    g = re.match(r"\|(\w+), (\w+)\|", a[1]) if len(a) == 2 else None
    t = re.match(r"\s*\?", body[c + 1:])
    if not g or not t:
        raise Lost("emulate_wireless not recognised")
    inner, n = re.subn(r"Ok\((.*)\)\s*$", r"\1", unbrace(a[1][g.end():]), flags=re.S)
    if n != 1:
        raise Lost("the closure does not end in Ok")
    inner = re.sub(r"\b%s\.cast\(\)" % g[2], g[2], inner)
    return body[:h.start()] + f"{{ let mut em__ = emulator(); let {g[1]} = &mut em__; let {g[2]} = {a[0]}; {inner} }}" + body[c + 1 + t.end():]


def alls(body):
    """ky_values(..).zip(a.iter().zip(b.iter())).all(|(ky, (a, b))| e) becomes a loop over the claims."""
    n = 0
    while True:
        h = re.search(r"(native|nested)::ky_values\(&(\w+)\)\s*\.zip\((\w+)\.a\.iter\(\)\.zip\(\3\.b\.iter\(\)\)\)\s*\.all\(", body)
        if not h:
            if n != 2:
                raise Lost("two groups of claims expected")
            return body
        a, c = split_args(body, h.end() - 1)
        g = re.match(r"\|\((\w+), \((\w+), (\w+)\)\)\|(.*)$", a[0], re.S)
        if not g:
            raise Lost("the closure on claims not recognised")
        b = h[3]
        inv = f"invariant k__ <= {b}.a.len(), kys__.len() == {b}.a.len(), {b}.b.len() == {b}.a.len(), all__ == (forall|i: int| 0 <= i < k__ ==> dot(#[trigger] {b}.a@[i], {b}.b@[i]) == kys__[i]), decreases {b}.a.len() - k__,"
        body = body[:h.start()] + (f"{{ let kys__ = {h[1]}_kys(&{h[2]}, {b}.a.len()); let mut all__ = true; let mut k__: usize = 0; while k__ < {b}.a.len() {inv} "
                                   f"{{ let ({g[1]}, {g[2]}, {g[3]}) = (kys__[k__], &{b}.a[k__], &{b}.b[k__]); let ghost a__ = {b}.a@[k__ as int]; if !({g[4]}) {{ all__ = false; }} k__ += 1; }} proof {{ assert(all__ == {h[1]}_hold(*self, *pcd, {b}.y, {b}.z)); }} all__ }}") + body[c + 1:]
        n += 1


W = r"impl<'m, 'rx, A, F: PrimeField, R: Rank> Builder"
FUNCTIONS = [
    dict(name="Application::verify", fn="verify", file=VERIFY, within=r"impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application", title="accepts exactly if every check holds at challenges drawn independently: index, header lengths, every native and nested claim, evaluation and commitment of p, the registry's evaluation",
         sig="impl Application { pub fn verify<const HEADER_SIZE: usize>(&self, pcd: &Pcd, rng_: Rng) -> (r: Result<bool, Error>)", suffix="}", context=BUILDER + PROOF,
         spec="ensures r.is_ok() ==> exists|i: int, j: int, k: int, l: int, m: int| #![trigger coin(i), coin(j), coin(k), coin(l), coin(m)] distinct(i, j, k, l, m) && i >= rng_.drawn@ && j >= rng_.drawn@ && k >= rng_.drawn@ && l >= rng_.drawn@ && m >= rng_.drawn@ && r->Ok_0 == holds(*self, *pcd, HEADER_SIZE, coin(i), coin(j), coin(k), coin(l), coin(m)),",
         transform=[(emulated, emulated.__doc__), (alls, alls.__doc__)],
         rewrite=[(r"C::(?:Circuit|Scalar)Field::random\(&mut rng\)", "random(&mut rng)", "a random field element"), (r"native::SingleProofSource", "NativeSource", "path"), (r"nested::SingleProofSource", "NestedSource", "path"), (r"native::SingleProofKySource", "NativeKySource", "path"), (r"nested::SingleProofKySource::<C::ScalarField>", "NestedKySource", "path"),
                  (r"claims::Builder", "Builder", "path"), (r"native_claims::build\(", "build_native(", "path"), (r"nested_claims::build\(", "build_nested(", "path"), (r"ProofInputs::<_, C, HEADER_SIZE>::alloc_for_verify::<R, H>", "ProofInputs::alloc_for_verify", "generics"),
                  (r"\*((?:\w+\.)?\w+(?:\([^()]*\)\??)?)\s*\.value\(\)\s*\.take\(\)", r"\1.taken()", "the value of an element on an emulator"), (r"C::host_generators\(self\.params\)", "generators(&self.params)", "the generators")],
         pre="let mut rng = rng_; let ghost c_ = (coin(rng.drawn@), coin(rng.drawn@ + 1), coin(rng.drawn@ + 2), coin(rng.drawn@ + 3), coin(rng.drawn@ + 4));"),
    dict(name="sum_polynomials", file=CLAIMS, title="the sum of all of them, however many", sig="fn sum_polynomials(rxs_: It) -> (r: Poly)", spec=SUM.replace("rxs", "rxs_"), context=BUILDER, transform=[COWS, (drain, drain.__doc__)],
         pre="let mut rxs = rxs_; let ghost all_ = rxs.rest();", rewrite=[(r"\.expect\(\"[^\"]*\"\)", ".unwrap()", "the message")], post="proof { if all_.len() == 1 { assert(total(all_) == all_[0]); } }"),
    dict(name="Builder::new", fn="new", within=W, file=CLAIMS, title="no claims, and t at z", sig="impl<'m> Builder<'m> { pub fn new(registry: &'m Registry, y: F, z: F) -> (r: Builder<'m>)", suffix="}", spec="ensures r.registry == registry, r.y == y, r.z == z, r.tz == tz_(z), r.a.len() == 0, r.b.len() == 0,", context=BUILDER, rewrite=[(r"R::tz", "rank_tz", "t at z"), (r"\bSelf\b", "Builder", "the type")]),
    dict(name="Builder::circuit_impl", fn="circuit_impl", within=W, file=CLAIMS, title="one claim: a, and a dilated by z plus the circuit's s at y plus t at z", sig="impl<'m> Builder<'m> { pub fn circuit_impl(&mut self, circuit_id: CircuitIndex, a: Poly)", suffix="}", spec=CIRCUIT, context=BUILDER, transform=[COWS],
         pre="let ghost (a_, o_) = (a, *self); proof { any_order(pdilate(a, self.z), sy(*self.registry, circuit_id, self.y), self.tz); }"),
    dict(name="Builder::bonding_impl", fn="bonding_impl", within=W, file=CLAIMS, title="one claim: a, and the circuit's s at y", sig="impl<'m> Builder<'m> { pub fn bonding_impl(&mut self, circuit_id: CircuitIndex, a: Poly)", suffix="}", spec=BONDING, context=BUILDER, transform=[COWS]),
    dict(name="Builder::fold_bonding_polys", fn="fold_bonding_polys", within=W, file=CLAIMS, title="Horner's rule at z over all of them; a single one is itself", sig="impl<'m> Builder<'m> { pub fn fold_bonding_polys(&self, rxs_: It) -> (r: Poly)", suffix="}", spec=FOLD.replace("rxs", "rxs_"), context=BUILDER, transform=[COWS], pre="let mut rxs = rxs_; let ghost all_ = rxs.rest();",
         rewrite=[(r"\.expect\(\"[^\"]*\"\)", ".unwrap()", "the message"), (r"sparse::Polynomial::fold\(\s*core::iter::once\((\w+)\)\s*\.chain\(core::iter::once\((\w+)\)\)\s*\.chain\((\w+)\),\s*", r"fold_all(\1, \2, \3, ", "the chain of polynomials")],
         post="proof { if all_.len() > 1 { assert(seq![all_[0], all_[1]] + all_.skip(1).skip(1) =~= all_); } }"),
]
for side, file in (("native", NATIVE), ("nested", NESTED)):
    FUNCTIONS += [
        dict(name=f"{side}::internal_circuit", fn="internal_circuit", within=r"Processor<&'rx sparse::Polynomial<F, R>(?:, CircuitIndex)?>\s*for Builder", file=file, title="one circuit claim, on the sum", sig="impl<'m> Builder<'m> { fn internal_circuit(&mut self, id: InternalCircuitIndex, rxs: It)", suffix="}", context=BUILDER + STUBS,
             spec="requires rxs.ok(), rxs.rest().len() > 0 ensures ({ let a = total(rxs.rest()); final(self).pushed(old(self), a, old(self).circuit_b(index_of(id), a)) }),"),
        dict(name=f"{side}::bonding", fn="bonding", within=r"Processor<&'rx sparse::Polynomial<F, R>(?:, CircuitIndex)?>\s*for Builder", file=file, title="one bonding claim, on the fold", sig="impl<'m> Builder<'m> { fn bonding(&mut self, id: InternalCircuitIndex, rxs: It) -> (r: Result<(), Error>)", suffix="}", context=BUILDER + STUBS,
             spec="requires rxs.ok(), rxs.rest().len() > 0 ensures r.is_ok(), final(self).pushed(old(self), folded(rxs.rest(), old(self).z), sy(*old(self).registry, index_of(id), old(self).y)),"),
    ]
FUNCTIONS += [
    dict(name="native::raw_claim", fn="raw_claim", within=r"Processor<&'rx sparse::Polynomial<F, R>, CircuitIndex>\s*for Builder", file=NATIVE, title="one claim, on the two given polynomials", sig="impl<'m> Builder<'m> { fn raw_claim(&mut self, a: &Poly, b: &Poly)", suffix="}", context=BUILDER, transform=[COWS], spec="ensures final(self).pushed(old(self), *a, *b),"),
    dict(name="native::circuit", fn="circuit", within=r"Processor<&'rx sparse::Polynomial<F, R>, CircuitIndex>\s*for Builder", file=NATIVE, title="one circuit claim, on the given polynomial", sig="impl<'m> Builder<'m> { fn circuit(&mut self, circuit_id: CircuitIndex, rx: &Poly)", suffix="}", context=BUILDER + STUBS, transform=[COWS], spec="ensures final(self).pushed(old(self), *rx, old(self).circuit_b(circuit_id, *rx)),"),
]
PRELUDE = prelude(SPEC)
