"""C11, unbounded: the registry polynomial interpolates exactly the registered circuits, in all its partial evaluations."""
import re

import c05
from verus import ASSERTS, CHAINS, ENUMERATES, Lost, close, mask, split_args, unbrace

REG = "crates/ragu_circuits/src/registry.rs"

ASSUME = [
    "CircuitObject::{sxy, sx, sy} are evaluations of one polynomial (C08); sparse::Polynomial::{scale, add_assign, default, from_coeffs} and View::build have the dense meaning proved in C07; Domain::{new, ell, ifft, contains} as proved in C05",
    "the keys of a lookup table (low 64 bits of 5w) separate the points of every domain a registry can have (ground check: every index below 2^16, both fields)",
    "BTreeMap is a map; into_circuit_object, BondingObject::into_inner and floor_plan are functions; usize::{next_power_of_two, trailing_zeros} as documented",
]

# the module of C05 is instantiated at the field itself
MODULE = """
pub mod md {
use vstd::prelude::*;
use super::fl::*;
use super::fl::law::*;
pub type E = F;
#[verifier::opaque] pub open spec fn ea(a: E, b: E) -> E { fadd(a, b) }
#[verifier::opaque] pub open spec fn eneg(a: E) -> E { fneg(a) }
#[verifier::opaque] pub open spec fn ez() -> E { fzero() }
#[verifier::opaque] pub open spec fn sc(a: E, w: F) -> E { fmul(a, w) }
pub open spec fn es(a: E, b: E) -> E { ea(a, eneg(b)) }
pub proof fn plain() ensures ez() == fzero(), forall|a: F, b: F| #[trigger] ea(a, b) == fadd(a, b), forall|a: F, b: F| #[trigger] sc(a, b) == fmul(a, b) { reveal(ea); reveal(ez); reveal(sc); }
proof fn all_() ensures ez() == fzero(), forall|a: F, b: F| #[trigger] ea(a, b) == fadd(a, b), forall|a: F, b: F| #[trigger] sc(a, b) == fmul(a, b), forall|a: F| #[trigger] eneg(a) == fneg(a) { reveal(ea); reveal(ez); reveal(sc); reveal(eneg); }
pub proof fn e_comm(a: E, b: E) ensures ea(a, b) == ea(b, a) { all_(); add_comm(a, b); }
pub proof fn e_assoc(a: E, b: E, c: E) ensures ea(ea(a, b), c) == ea(a, ea(b, c)) { all_(); add_assoc(a, b, c); }
pub proof fn e_zero(a: E) ensures ea(a, ez()) == a { all_(); add_zero(a); }
pub proof fn e_neg(a: E) ensures ea(a, eneg(a)) == ez() { all_(); add_neg(a); }
pub proof fn sc_dist(a: E, b: E, w: F) ensures sc(ea(a, b), w) == ea(sc(a, w), sc(b, w)) { all_(); mul_comm(fadd(a, b), w); distr(w, a, b); mul_comm(a, w); mul_comm(b, w); }
pub proof fn sc_add(a: E, v: F, w: F) ensures sc(a, fadd(v, w)) == ea(sc(a, v), sc(a, w)) { all_(); distr(a, v, w); }
pub proof fn sc_mul(a: E, v: F, w: F) ensures sc(sc(a, v), w) == sc(a, fmul(v, w)) { all_(); mul_assoc(a, v, w); }
pub proof fn sc_one(a: E) ensures sc(a, fone()) == a { all_(); mul_one(a); }
""" + c05.MODULE[c05.MODULE.index("pub proof fn zero_e"):c05.MODULE.index("pub struct R {}")] + "}\n"

SPEC = """
// ---- circuits, polynomials, rank
#[verifier::external_body] pub struct Obj { x: Vec<u64> }
#[verifier::external_body] pub struct Plan { x: Vec<u64> }
#[verifier::external_body] pub struct Records { x: Vec<u64> }
pub uninterp spec fn s_(o: Obj, x: F, y: F) -> F;
pub uninterp spec fn rec_(o: Obj) -> Records;
pub uninterp spec fn floor_(r: Records) -> Plan;
pub uninterp spec fn counts_(o: Obj) -> (usize, usize);
pub open spec fn plan_of(o: Obj) -> Plan { floor_(rec_(o)) }
#[verifier::external_body] pub struct Poly { x: Vec<u64> }
/// value of a polynomial at a point
pub uninterp spec fn pv(p: Poly, x: F) -> F;
impl Obj {
    #[verifier::external_body] pub fn sxy(&self, x: F, y: F, plan: &Plan) -> (r: F) requires *plan == plan_of(*self) ensures r == s_(*self, x, y) { unimplemented!() }
    #[verifier::external_body] pub fn sx(&self, x: F, plan: &Plan) -> (r: Poly) requires *plan == plan_of(*self) ensures forall|y: F| #[trigger] pv(r, y) == s_(*self, x, y) { unimplemented!() }
    #[verifier::external_body] pub fn sy(&self, y: F, plan: &Plan) -> (r: Poly) requires *plan == plan_of(*self) ensures forall|x: F| #[trigger] pv(r, x) == s_(*self, x, y) { unimplemented!() }
    #[verifier::external_body] pub fn segment_records(&self) -> (r: Records) ensures r == rec_(*self) { unimplemented!() }
    #[verifier::external_body] pub fn constraint_counts(&self) -> (r: (usize, usize)) ensures r == counts_(*self) { unimplemented!() }
}
#[verifier::external_body] fn floor_plan(r: Records) -> (p: Plan) ensures p == floor_(r) { unimplemented!() }
impl Poly {
    #[verifier::external_body] pub fn default() -> (r: Poly) ensures forall|x: F| #[trigger] pv(r, x) == fzero() { unimplemented!() }
    #[verifier::external_body] pub fn scale(&mut self, c: F) ensures forall|x: F| #[trigger] pv(*final(self), x) == fmul(pv(*old(self), x), c) { unimplemented!() }
    #[verifier::external_body] pub fn add_assign(&mut self, o: &Poly) ensures forall|x: F| #[trigger] pv(*final(self), x) == fadd(pv(*old(self), x), pv(*o, x)) { unimplemented!() }
    #[verifier::external_body] pub fn from_coeffs(c: Vec<F>) -> (r: Poly) requires c.len() <= 4 * rn() ensures forall|x: F| #[trigger] pv(r, x) == ev(c@, x) { unimplemented!() }
}
pub uninterp spec fn rn() -> nat;
/// R::num_coeffs() = 4n is a power of two that fits a machine word, below 2^32 and within the field's two-adicity
pub uninterp spec fn rm() -> nat;
pub axiom fn rank() ensures 4 * rn() == p2(rm()), rm() <= 31, rm() <= two_adicity(), rn() >= 1;
pub struct R {}
impl R {
    #[verifier::external_body] pub fn n() -> (r: usize) ensures r == rn(), r <= 0x2000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn num_coeffs() -> (r: usize) ensures r == 4 * rn(), r <= 0x8000_0000 { unimplemented!() }
}
/// the wiring layout with only its first c entry: c X^(4n-1)
pub struct WiringView { pub c: Vec<F> }
impl WiringView {
    #[verifier::external_body] pub fn wiring() -> (r: WiringView) ensures r.c@ == Seq::<F>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Poly) requires self.c.len() == 1 ensures forall|x: F| #[trigger] pv(r, x) == fmul(self.c[0], fpow(x, (4 * rn() - 1) as nat)) { unimplemented!() }
}
#[verifier::external_body] fn zeros_n(n: usize) -> (r: Vec<F>) ensures r@ == Seq::new(n as nat, |i: int| fzero()) { unimplemented!() }
#[verifier::external_body] fn bitreverse(k: u32, l: u32) -> (r: u32) requires l <= 32, k < p2(l as nat) ensures r == rev(k as nat, l as nat) { unimplemented!() }
impl Domain {
    #[verifier::external_body] pub fn n(&self) -> (r: usize) ensures r == self.n { unimplemented!() }
    #[verifier::external_body] pub fn log2_n(&self) -> (r: u32) ensures r == self.log2_n { unimplemented!() }
    #[verifier::external_body] pub fn omega(&self) -> (r: F) ensures r == self.omega { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: F) -> (r: bool) requires self.inv() ensures r == self.has(x) { unimplemented!() }
    #[verifier::external_body] pub fn new(k: u32) -> (r: Domain) ensures k <= two_adicity(), r.inv(), r.log2_n == k, r.n == p2(k as nat) { unimplemented!() }
    /// Domain::ifft on the first m entries of a vector
    #[verifier::external_body] pub fn ifft_prefix(&self, input: &mut Vec<F>, m: usize) requires self.inv(), m <= old(input).len()
        ensures m == self.n, final(input).len() == old(input).len(), final(input)@.skip(m as int) == old(input)@.skip(m as int),
            forall|s: Seq<F>| s.len() == self.n && old(input)@.take(m as int) == #[trigger] dft(s, self.omega) ==> final(input)@.take(m as int) == s { unimplemented!() }
    #[verifier::external_body] pub fn ell(&self, x: F, amount: usize) -> (r: Option<Vec<F>>) requires self.inv()
        ensures amount <= self.n, r.is_none() == self.has(x), r.is_some() ==> r.unwrap().len() == amount,
            r.is_some() && amount == self.n ==> forall|s: Seq<F>| s.len() == self.n ==> #[trigger] weighted(s, self.omega, r.unwrap()@, self.n as nat) == ev(s, x) { unimplemented!() }
}
// ---- powers of a generator are distinct
pub proof fn minus_one() ensures fneg(fone()) != fone() { prime_field(); add_neg(fone()); }
pub proof fn no_smaller_order(w: F, l: nat, d: nat) requires root(w, l), 0 < d < p2(l) ensures fpow(w, d) != fone() decreases l {
    if l > 0 {
        let h = p2((l - 1) as nat); let e = d / 2;
        if d % 2 == 0 { root_sq(w, l); pow_sq(w, e); no_smaller_order(sq(w), (l - 1) as nat, e); }
        else if fpow(w, d) == fone() {
            // 1 = (w^d)^h = (w^h)^d = (-1)^d = -1
            let m = fneg(fone());
            pow_pow(w, d, h); one_pow(h); pow_pow(w, h, d); assert(d * h == h * d) by (nonlinear_arith);
            pow_sq(m, e); neg_sq(fone()); mul_one(fone()); one_pow(e);
            assert(fpow(m, (2 * e) as nat) == fone()); assert(d == 2 * e + 1); mone(m); minus_one();
        }
    }
}
pub proof fn distinct(w: F, l: nat, i: nat, j: nat) requires root(w, l), i < p2(l), j < p2(l), fpow(w, i) == fpow(w, j) ensures i == j {
    if i != j {
        let (a, b) = if i < j { (i, j) } else { (j, i) }; let d = (b - a) as nat; let c = (p2(l) - a) as nat;
        // w^d = w^d w^a w^(n-a) = w^b w^(n-a) = w^a w^(n-a) = 1
        pow_add(w, a, d); pow_add(w, a, c); root_one(w, l); assert(a + c == p2(l)); assert(a + d == b);
        let (wa, wc, wd) = (fpow(w, a), fpow(w, c), fpow(w, d));
        mul_comm(wa, wc); mul_assoc(wc, wa, wd); mone(wd);
        no_smaller_order(w, l, d);
    }
}
// ---- indices and points
pub proof fn rev_wide(i: nat, l: nat, s: nat) requires i < p2(l), l <= s ensures rev(i, s) == rev(i, l) * p2((s - l) as nat) decreases s {
    if l == s { assert(p2(0) == 1); assert(rev(i, l) * 1 == rev(i, l)); } else {
        let t = (s - 1) as nat;
        if l < t { p2_less(l, t); }
        rev_wide(i, l, t);
        let (r, q) = (rev(i, l), p2((t - l) as nat)); assert(p2((s - l) as nat) == 2 * q); assert(2 * (r * q) == r * (2 * q)) by (nonlinear_arith);
    }
}
/// the point of index i, whatever the size of the registry
pub open spec fn point(i: nat) -> F { fpow(primitive(), rev(i, two_adicity() as nat)) }
pub proof fn point_in(d: Domain, i: nat) requires d.inv(), i < d.n ensures point(i) == fpow(d.omega, rev(i, d.log2_n as nat)), rev(i, d.log2_n as nat) < d.n, d.has(point(i)) {
    let (l, s) = (d.log2_n as nat, two_adicity() as nat);
    rev_wide(i, l, s); rev_less(i, l); pow_pow(primitive(), p2((s - l) as nat), rev(i, l));
    assert(rev(i, l) * p2((s - l) as nat) == p2((s - l) as nat) * rev(i, l)) by (nonlinear_arith);
}
/// C11: every index has its own point
pub proof fn points_distinct(i: nat, j: nat) requires i < p2(two_adicity() as nat), j < p2(two_adicity() as nat), point(i) == point(j) ensures i == j {
    let s = two_adicity() as nat; prime_field(); rev_less(i, s); rev_less(j, s); distinct(primitive(), s, rev(i, s), rev(j, s)); rev_rev(i, s); rev_rev(j, s);
}
/// C11: the point of an index is in the domain exactly if the index is below its size
pub proof fn membership(d: Domain, i: nat) requires d.inv(), i < p2(two_adicity() as nat) ensures d.has(point(i)) <==> i < d.n {
    if i < d.n { point_in(d, i); } else if d.has(point(i)) {
        let k = choose|k: nat| k < d.n && point(i) == #[trigger] fpow(d.omega, k); let l = d.log2_n as nat;
        let j = rev(k, l); rev_less(k, l); rev_rev(k, l); point_in(d, j);
        if l < two_adicity() { p2_less(l, two_adicity() as nat); }
        points_distinct(i, j);
    }
}
pub proof fn which(d: Domain, x: F) -> (i: nat) requires d.inv(), d.has(x) ensures i < d.n, x == point(i) {
    let k = choose|k: nat| k < d.n && x == #[trigger] fpow(d.omega, k); let l = d.log2_n as nat;
    rev_less(k, l); rev_rev(k, l); point_in(d, rev(k, l)); rev(k, l)
}
// ---- lookup by the low bits of 5w
pub struct OmegaKey(pub u64);
pub uninterp spec fn low64(f: F) -> u64;
pub open spec fn okey(w: F) -> OmegaKey { OmegaKey(low64(fadd(fadd(fadd(w, w), fadd(w, w)), w))) }
pub axiom fn separates(i: nat, j: nat) requires i < 4 * rn(), j < 4 * rn(), okey(point(i)) == okey(point(j)) ensures i == j;
#[verifier::external_body] fn low_u64(f: &F) -> (r: u64) ensures r == low64(*f) { unimplemented!() }
#[verifier::external_body] pub struct BTreeMap { x: Vec<u64> }
impl BTreeMap {
    pub uninterp spec fn view(&self) -> Map<OmegaKey, usize>;
    #[verifier::external_body] pub fn new() -> (r: BTreeMap) ensures r@ == Map::<OmegaKey, usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: OmegaKey, v: usize) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &OmegaKey) -> (r: Option<&usize>) ensures r.is_some() == self@.contains_key(*k), r.is_some() ==> *r.unwrap() == self@[*k] { unimplemented!() }
}
pub open spec fn lookup_upto(m: Map<OmegaKey, usize>, k: nat) -> bool {
    &&& forall|i: nat| i < k ==> #[trigger] m.contains_key(okey(point(i))) && m[okey(point(i))] == i
    &&& forall|q: OmegaKey| #[trigger] m.contains_key(q) ==> exists|i: nat| i < k && q == okey(#[trigger] point(i))
}
// ---- the registry
#[derive(Clone, Copy)] pub struct CircuitIndex(pub u32);
fn index_of(i: CircuitIndex) -> (r: usize) ensures r == i.0 { i.0 as usize }
pub struct Key(pub F);
pub enum LagrangeCache { Interpolate(Vec<F>), Direct(usize), Empty }
pub struct Registry { pub domain: Domain, pub circuits: Vec<Obj>, pub floor_plans: Vec<Plan>, pub omega_lookup: BTreeMap, pub key: Key }
pub struct RegistryAt<'a> { pub registry: &'a Registry, pub cache: LagrangeCache }
/// the function w -> f(circuit) to interpolate, at each exponent of the generator
pub open spec fn vals(c: Seq<Obj>, l: nat, f: spec_fn(Obj) -> F) -> Seq<F> { Seq::new(p2(l), |k: int| if rev(k as nat, l) < c.len() { f(c[rev(k as nat, l) as int]) } else { fzero() }) }
pub open spec fn at_(x: F, y: F) -> spec_fn(Obj) -> F { |o: Obj| s_(o, x, y) }
/// coefficients in W of the interpolant
pub open spec fn coeffs_(d: Domain, c: Seq<Obj>, f: spec_fn(Obj) -> F) -> Seq<F> { scaled(dft(vals(c, d.log2_n as nat, f), d.omega_inv), d.n_inv) }
pub proof fn coeffs_interpolate(d: Domain, c: Seq<Obj>, f: spec_fn(Obj) -> F) requires d.inv() ensures coeffs_(d, c, f).len() == d.n, dft(coeffs_(d, c, f), d.omega) == vals(c, d.log2_n as nat, f) {
    let l = d.log2_n as nat; let (w, v, m) = (d.omega, d.omega_inv, d.n_inv); let a = vals(c, l, f); let e = dft(a, v);
    transform_back(a, w, v, l); mul_comm(w, v); transform_back(a, v, w, l);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] dft(scaled(e, m), w)[k] == a[k] by {
        ev_scaled(e, m, fpow(w, k as nat)); assert(dft(e, w)[k] == scaled(a, f2(l))[k]); sc_mul(a[k], f2(l), m); sc_one(a[k]);
    }
    assert(dft(scaled(e, m), w) =~= a);
}
/// k (xy)^(4n-1)
pub open spec fn kterm(k: F, x: F, y: F) -> F { fmul(k, fpow(fmul(x, y), (4 * rn() - 1) as nat)) }
impl Registry {
    pub open spec fn inv(&self) -> bool {
        &&& self.domain.inv() && self.circuits.len() <= self.domain.n && self.domain.n <= 4 * rn()
        &&& self.floor_plans.len() == self.circuits.len() && forall|i: int| 0 <= i < self.circuits.len() ==> #[trigger] self.floor_plans[i] == plan_of(self.circuits[i])
        &&& lookup_upto(self.omega_lookup@, self.circuits.len() as nat)
    }
    /// the interpolant of f over the registered circuits, at w
    pub open spec fn inter(&self, w: F, f: spec_fn(Obj) -> F) -> F { ev(coeffs_(self.domain, self.circuits@, f), w) }
    /// the registry polynomial
    pub open spec fn m(&self, w: F, x: F, y: F) -> F { fadd(self.inter(w, at_(x, y)), kterm(self.key.0, x, y)) }
    /// C11: at the point of an index it is the wiring polynomial of that circuit plus the key term; at other points of the domain only the key term
    pub proof fn at_index(&self, i: nat, f: spec_fn(Obj) -> F) requires self.inv(), i < self.domain.n ensures self.inter(point(i), f) == (if i < self.circuits.len() { f(self.circuits[i as int]) } else { fzero() }) {
        let l = self.domain.log2_n as nat; let k = rev(i, l);
        coeffs_interpolate(self.domain, self.circuits@, f); point_in(self.domain, i); rev_rev(i, l);
        assert(dft(coeffs_(self.domain, self.circuits@, f), self.domain.omega)[k as int] == vals(self.circuits@, l, f)[k as int]);
    }
    pub proof fn circuit_at(&self, i: nat, x: F, y: F) requires self.inv(), i < self.domain.n
        ensures self.m(point(i), x, y) == fadd(if i < self.circuits.len() { s_(self.circuits[i as int], x, y) } else { fzero() }, kterm(self.key.0, x, y)) { self.at_index(i, at_(x, y)); }
    /// what a cache says about w
    pub open spec fn cached(&self, cache: LagrangeCache, w: F) -> bool {
        match cache {
            LagrangeCache::Interpolate(c) => c.len() == self.domain.n && forall|s: Seq<F>| s.len() == self.domain.n ==> #[trigger] weighted(s, self.domain.omega, c@, self.domain.n as nat) == ev(s, w),
            LagrangeCache::Direct(i) => i < self.circuits.len() && w == point(i as nat),
            LagrangeCache::Empty => exists|i: nat| self.circuits.len() <= i < self.domain.n && w == #[trigger] point(i),
        }
    }
}
pub open spec fn wsum(a: Seq<F>, c: Seq<F>, k: nat) -> F decreases k { if k == 0 { fzero() } else { fadd(wsum(a, c, (k - 1) as nat), fmul(a[k - 1], c[k - 1])) } }
pub proof fn wsum_is(s: Seq<F>, w: F, a: Seq<F>, c: Seq<F>, k: nat) requires k <= s.len(), a == dft(s, w) ensures wsum(a, c, k) == weighted(s, w, c, k) decreases k {
    plain(); if k > 0 { wsum_is(s, w, a, c, (k - 1) as nat); assert(a[k - 1] == ev(s, fpow(w, (k - 1) as nat))); }
}
pub proof fn zmul(x: F) ensures fmul(fzero(), x) == fzero() { mul_comm(fzero(), x); mul_zero(x); }
pub proof fn zpow(n: nat) requires n > 0 ensures fpow(fzero(), n) == fzero() { mul_zero(fpow(fzero(), (n - 1) as nat)); }
pub proof fn key_at_zero(k: F, x: F, y: F) requires x == fzero() || y == fzero() ensures kterm(k, x, y) == fzero() { rank(); zmul(y); mul_zero(x); zpow((4 * rn() - 1) as nat); mul_zero(k); }
pub proof fn key_split(k: F, x: F, y: F) ensures fmul(fmul(k, fpow(y, (4 * rn() - 1) as nat)), fpow(x, (4 * rn() - 1) as nat)) == kterm(k, x, y), fmul(fmul(k, fpow(x, (4 * rn() - 1) as nat)), fpow(y, (4 * rn() - 1) as nat)) == kterm(k, x, y) {
    let e = (4 * rn() - 1) as nat; let (a, b) = (fpow(x, e), fpow(y, e));
    pow_mul(x, y, e); mul_comm(a, b); mul_assoc(k, b, a); mul_assoc(k, a, b);
}
/// sum of the first k coefficients of a vector of zeros
pub proof fn ev_zeros(s: Seq<F>, x: F) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == fzero() ensures ev(s, x) == fzero() decreases s.len() {
    plain(); if s.len() > 0 { ev_zeros(s.drop_last(), x); zmul(fpow(x, (s.len() - 1) as nat)); add_zero(fzero()); }
}
pub proof fn ev_last(s: Seq<F>, x: F) requires s.len() > 0, forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] == fzero() ensures ev(s, x) == fmul(s.last(), fpow(x, (s.len() - 1) as nat)) {
    plain(); ev_zeros(s.drop_last(), x); azero(fmul(s.last(), fpow(x, (s.len() - 1) as nat)));
}
pub proof fn ev_bump(s: Seq<F>, t: Seq<F>, k: F, x: F) requires s.len() > 0, t == s.update(0, fadd(s[0], k)) ensures ev(t, x) == fadd(ev(s, x), k) decreases s.len() {
    plain();
    let p = fpow(x, (s.len() - 1) as nat); let (a, b) = (ev(s.drop_last(), x), fmul(s.last(), p));
    if s.len() == 1 {
        reveal_with_fuel(ev, 2); assert(p == fone()); mul_one(s[0]); mul_one(t[0]); assert(s.drop_last().len() == 0 && t.drop_last().len() == 0); azero(s[0]); azero(t[0]);
    } else {
        assert(t.drop_last() =~= s.drop_last().update(0, fadd(s.drop_last()[0], k))); assert(t.last() == s.last());
        ev_bump(s.drop_last(), t.drop_last(), k, x);
        add_assoc(a, k, b); add_comm(k, b); add_assoc(a, b, k);
    }
}
pub proof fn ev_pad(s: Seq<F>, t: Seq<F>, n: nat, x: F) requires n <= t.len(), t.take(n as int) == s, forall|i: int| n <= i < t.len() ==> #[trigger] t[i] == fzero() ensures ev(t, x) == ev(s, x) {
    plain(); let z = t.skip(n as int); assert(t =~= s + z); ev_split(s, z, x); ev_zeros(z, x); zmul(fpow(x, s.len())); add_zero(ev(s, x));
}
"""
# the contract of w_cached: `mean` is what the accumulated value is worth at a point, `val` what a circuit contributes there
WCACHED = """
impl Registry {
    #[verifier::external_body] fn w_cached_%(n)s(&self, cache: &LagrangeCache, %(p)s: F, w_: Ghost<F>) -> (r: %(T)s)
        requires self.inv(), self.cached(*cache, w_@)
        ensures %(ens)s { unimplemented!() }
}
"""
ENS = {"xy": "r == self.inter(w_@, at_(x, y))", "y": "forall|x: F| #[trigger] pv(r, x) == self.inter(w_@, at_(x, y))", "x": "forall|y: F| #[trigger] pv(r, y) == self.inter(w_@, at_(x, y))"}
AT = """
impl<'a> RegistryAt<'a> { pub open spec fn good(&self, w: F) -> bool { self.registry.inv() && self.registry.cached(self.cache, w) } }
"""


def ws(n):
    return WCACHED % dict(n=n, p={"xy": "x: F, y", "x": "x", "y": "y"}[n], T="F" if n == "xy" else "Poly", ens=ENS[n])


def cached_call(n):
    """the call of w_cached with its two closures (each under its own contract) becomes a call under w_cached's contract"""
    def go(body):
        h = re.search(r"\.w_cached\(", mask(body))
        if not h:
            raise Lost("call of w_cached not found")
        parts, c = split_args(body, h.end() - 1)
        if len(parts) != 3:
            raise Lost("w_cached: arguments not recognised")
        return body[:h.start()] + f".w_cached_{n}({parts[0]}, {'x, y' if n == 'xy' else n}, Ghost(w_@))" + body[c + 1:]
    return go


def closure(k):
    """the k-th argument (a closure) of the call of w_cached, as the body of a function"""
    def go(body):
        h = re.search(r"\.w_cached\(", mask(body))
        if not h:
            raise Lost("call of w_cached not found")
        parts, _ = split_args(body, h.end() - 1)
        x = parts[k].strip()
        if k == 1:
            g = re.match(r"\|\|(.*)$", x, re.S)
            return unbrace(g[1]) if g else x + "()"
        g = re.match(r"(?:move )?\|(.*?)\|(.*)$", x, re.S)
        if not g:
            raise Lost("closure not recognised")
        names = [n.split(":")[0].strip() for n in g[1].split(",") if n.strip()]
        if len(names) != 4:
            raise Lost("closure takes other arguments")
        return "".join(f"let {n} = {v}; " for n, v in zip(names, ("circuit__", "plan__", "coeff__", "acc__")) if n != "_") + unbrace(g[2])
    return go


SELF = (r"\bself\b", "s__", "the builder taken by value")
POLY = (r"sparse::Polynomial::", "Poly::", "the polynomial type")
EQZ = (r"(\w+)\s*(==|!=)\s*F::ZERO", lambda g: ("!" if g[2] == "!=" else "") + f"{g[1]}.eq_(F::ZERO)", "equality of field elements")
VECZ = (r"(?:alloc::)?vec!\[F::ZERO; ([^\]]*)\]", r"zeros_n(\1)", "vec!")
USIZE = (r"usize::from\(", "index_of(", "conversion of an index")
BUILDER = """
pub struct RegistryBuilder { pub internal_circuits: Vec<Obj>, pub bonding: Vec<Obj>, pub internal_steps: Vec<Obj>, pub application_steps: Vec<Obj> }
pub enum Error { CircuitBoundExceeded { limit: usize } }
impl RegistryBuilder {
    pub open spec fn total(&self) -> nat { self.internal_circuits.len() as nat + self.bonding.len() as nat + self.internal_steps.len() as nat + self.application_steps.len() as nat }
    /// the order of the indices
    pub open spec fn order(&self) -> Seq<Obj> { self.internal_circuits@ + self.bonding@ + self.internal_steps@ + self.application_steps@ }
    /// the lists together fit the address space
    pub open spec fn fits(&self) -> bool { self.total() <= 0x4000_0000_0000_0000 }
}
/// least power of two that is at least x
pub open spec fn least(l: nat, x: nat) -> bool { x <= p2(l) && (l == 0 || p2((l - 1) as nat) < x) }
"""
NUMS = {
    "num_internal_circuits": "#[verifier::external_body] fn num_internal_circuits(&self) -> (r: usize) requires self.fits() ensures r == self.internal_circuits.len() + self.bonding.len() { unimplemented!() }",
    "num_circuits": "#[verifier::external_body] fn num_circuits(&self) -> (r: usize) requires self.fits() ensures r == self.total() { unimplemented!() }",
    "log2_circuits": "#[verifier::external_body] fn log2_circuits(&self) -> (r: u32) requires self.fits() ensures least(r as nat, self.total()) { unimplemented!() }",
}
NPOT = """
pub trait Bits { spec fn v(self) -> nat; fn npot(self) -> (r: usize) where Self: Sized requires self.v() <= 0x8000_0000_0000_0000 ensures exists|l: nat| l < 64 && r == #[trigger] p2(l) && least(l, self.v()); fn tz(self) -> (r: u32) where Self: Sized ensures forall|l: nat| self.v() == #[trigger] p2(l) ==> r == l; }
impl Bits for usize {
    open spec fn v(self) -> nat { self as nat }
    #[verifier::external_body] fn npot(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn tz(self) -> (r: u32) { unimplemented!() }
}
"""
FINAL = """
pub struct Chain {}
trait Chained { fn chain(self, o: Vec<Obj>) -> (r: Vec<Obj>); }
impl Chained for Vec<Obj> { #[verifier::external_body] fn chain(self, o: Vec<Obj>) -> (r: Vec<Obj>) ensures r@ == self@ + o@ { unimplemented!() } }
impl OmegaKey { #[verifier::external_body] fn from(w: F) -> (r: OmegaKey) ensures r == okey(w) { unimplemented!() } }
impl Key { #[verifier::external_body] fn new(v: F) -> (r: Key) ensures r.0 == v { unimplemented!() } #[verifier::external_body] fn default() -> (r: Key) ensures r.0 == fone() { unimplemented!() } }
impl Registry { #[verifier::external_body] fn compute_registry_digest(&self) -> F requires self.inv() { unimplemented!() } }
"""
REGS = """
pub struct Circ { pub o: Obj }
pub uninterp spec fn accepted(o: Obj) -> bool;
#[verifier::external_body] fn into_circuit_object(c: Circ) -> (r: Result<Obj, Error>) ensures r.is_ok() == accepted(c.o), r.is_ok() ==> r->Ok_0 == c.o { unimplemented!() }
impl Circ { #[verifier::external_body] fn into_inner(self) -> (r: Obj) ensures r == self.o { unimplemented!() } }
"""


def register(fn, field, bonding=False):
    same = " && ".join(f"r_.{f}@ == self.{f}@" for f in ("internal_circuits", "bonding", "internal_steps", "application_steps") if f != field)
    if bonding:
        sig, spec = f"impl RegistryBuilder {{ pub fn {fn}(self, bonding: Circ) -> (r: RegistryBuilder)", f"ensures r.{field}@ == self.{field}@.push(bonding.o), {same.replace('r_', 'r')},"
    else:
        sig = f"impl RegistryBuilder {{ pub fn {fn}(self, circuit: Circ) -> (r: Result<RegistryBuilder, Error>)"
        spec = f"ensures r.is_ok() == accepted(circuit.o), r.is_ok() ==> ({{ let r_ = r->Ok_0; r_.{field}@ == self.{field}@.push(circuit.o) && {same} }}),"
    return dict(name=f"RegistryBuilder::{fn}", fn=fn, file=REG, title="appends to its category, and touches no other", sig=sig, spec=spec, suffix="}", context=BUILDER + REGS,
                pre="let mut s__ = self;", rewrite=[SELF] + ([] if bonding else [(r"crate::into_circuit_object", "into_circuit_object", "path")]))


def on(name, title, sig, spec, extra, **k):
    return dict(name=f"RegistryAt::{name}", fn=name, file=REG, within=r"impl<F: PrimeField, R: Rank> RegistryAt<'_, F, R>", title=title, sig=f"impl<'a> RegistryAt<'a> {{ pub fn {sig}", spec=spec,
                suffix="}", context=AT + ws(name) + extra, transform=[(cached_call(name), cached_call.__doc__ or "the call of w_cached is made under its contract")], **k)


def add_closure(n):
    ens = {"xy": "*final(acc__) == fadd(*old(acc__), fmul(coeff__, s_(*circuit__, x, y)))",
           "y": "forall|x: F| #[trigger] pv(*final(acc__), x) == fadd(pv(*old(acc__), x), fmul(coeff__, s_(*circuit__, x, y)))",
           "x": "forall|y: F| #[trigger] pv(*final(acc__), y) == fadd(pv(*old(acc__), y), fmul(coeff__, s_(*circuit__, x, y)))"}[n]
    v = dict(xy="", x="y", y="x")[n]
    hint = f"assert forall|{v}: F| fmul(coeff__, #[trigger] s_(*circuit__, x, y)) == fmul(s_(*circuit__, x, y), coeff__) by {{ mul_comm(coeff__, s_(*circuit__, x, y)); }}" if v else "mul_comm(coeff__, s_(*circuit__, x, y));"
    T = "F" if n == "xy" else "Poly"
    return dict(name=f"RegistryAt::{n}, contribution of a circuit", fn=n, file=REG, within=r"impl<F: PrimeField, R: Rank> RegistryAt<'_, F, R>", title="the evaluation of the circuit times the coefficient is added",
                cut=closure(2), sig=f"pub fn contribution({dict(xy='x: F, y: F', x='x: F', y='y: F')[n]}, circuit__: &Obj, plan__: &Plan, coeff__: F, acc__: &mut {T})",
                spec=f"requires *plan__ == plan_of(*circuit__) ensures {ens},", post=f"proof {{ {hint} }}")


def start_closure(n):
    T, ens = ("F", "r == fzero()") if n == "xy" else ("Poly", "forall|x: F| #[trigger] pv(r, x) == fzero()")
    return dict(name=f"RegistryAt::{n}, start", fn=n, file=REG, within=r"impl<F: PrimeField, R: Rank> RegistryAt<'_, F, R>", title="the sum starts at zero", cut=closure(1), sig=f"pub fn start() -> (r: {T})", spec=f"ensures {ens},",
                rewrite=[] if n == "xy" else [POLY])


ATSTUB = """
impl Registry { #[verifier::external_body] fn at(&self, w: F) -> (r: RegistryAt<'_>) requires self.inv() ensures r.registry == self, r.good(w) { unimplemented!() } }
impl<'a> RegistryAt<'a> {
    #[verifier::external_body] fn y(&self, y: F, w_: Ghost<F>) -> (r: Poly) requires self.good(w_@) ensures forall|x: F| #[trigger] pv(r, x) == self.registry.m(w_@, x, y) { unimplemented!() }
    #[verifier::external_body] fn x(&self, x: F, w_: Ghost<F>) -> (r: Poly) requires self.good(w_@) ensures forall|y: F| #[trigger] pv(r, y) == self.registry.m(w_@, x, y) { unimplemented!() }
    #[verifier::external_body] fn xy(&self, x: F, y: F, w_: Ghost<F>) -> (r: F) requires self.good(w_@) ensures r == self.registry.m(w_@, x, y) { unimplemented!() }
}
"""
OMEGAJ = "impl CircuitIndex { #[verifier::external_body] fn omega_j(self) -> (r: F) requires self.0 < p2(two_adicity() as nat) ensures r == point(self.0 as nat) { unimplemented!() } }\n"


def wrapper(fn, title, sig, spec, context="", rewrite=(), pre="", post=""):
    return dict(name=f"Registry::{fn}", fn=fn, file=REG, within=r"impl<F: PrimeField, R: Rank> Registry<'_, F, R>", title=title, sig=f"impl Registry {{ pub fn {sig}", spec=spec, suffix="}", context=AT + context, rewrite=list(rewrite), pre=pre, post=post)


def ghosted(kind):
    return (r"\.at\(([^()]*(?:\([^()]*\))?)\)\s*\.%s\(([^()]*)\)" % kind, r".at(\1).%s(\2, Ghost(\1))" % kind, "ghost argument: the point the cache is for")


PRELUDE = c05.prelude("").replace("pub mod code {", MODULE + "\npub mod code {").replace("//@CODE", c05.THEORY + c05.DOMAINS.replace("const fn s_()", "const fn s0_()").replace("{ s_() }", "{ s0_() }") + SPEC + "\n//@CODE")
FUNCTIONS = [
    dict(name="OmegaKey::from", fn="from", nth=0, file=REG, within=r"impl<F: PrimeField> From<F> for OmegaKey", title="the low bits of 5w", sig="pub fn omega_key(f: F) -> (r: OmegaKey)", spec="ensures r == okey(f),", rewrite=[(r"ragu_arithmetic::low_u64", "low_u64", "path")]),
    dict(name="CircuitIndex::omega_j", fn="omega_j", file=REG, title="the point of the index, for every index the field has a point for", sig="impl CircuitIndex { pub fn omega_j(self) -> (r: F)",
         spec="requires self.0 < p2(two_adicity() as nat) ensures r == point(self.0 as nat),", suffix="}", pre="proof { prime_field(); }", rewrite=[(r"\.into\(\)", " as u64", "widening")]),
    dict(name="RegistryBuilder::num_internal_circuits", fn="num_internal_circuits", file=REG, title="internal circuits and bonding polynomials", sig="impl RegistryBuilder { pub fn num_internal_circuits(&self) -> (r: usize)",
         spec="requires self.fits() ensures r == self.internal_circuits.len() + self.bonding.len(),", suffix="}", context=BUILDER),
    dict(name="RegistryBuilder::num_circuits", fn="num_circuits", file=REG, title="all four categories", sig="impl RegistryBuilder { pub fn num_circuits(&self) -> (r: usize)",
         spec="requires self.fits() ensures r == self.total(),", suffix=NUMS["num_internal_circuits"] + "}", context=BUILDER),
    dict(name="RegistryBuilder::log2_circuits", fn="log2_circuits", file=REG, title="the smallest domain that holds every circuit", sig="impl RegistryBuilder { pub fn log2_circuits(&self) -> (r: u32)",
         spec="requires self.fits() ensures least(r as nat, self.total()),", suffix=NUMS["num_circuits"] + "}", context=BUILDER + NPOT,
         rewrite=[(r"\.next_power_of_two\(\)", ".npot()", "contract of next_power_of_two"), (r"\.trailing_zeros\(\)", ".tz()", "contract of trailing_zeros")]),
    register("register_circuit", "application_steps"),
    register("register_internal_circuit", "internal_circuits"),
    register("register_internal_step", "internal_steps"),
    register("register_bonding", "bonding", True),
    dict(name="RegistryBuilder::finalize", fn="finalize", file=REG, title="refuses exactly too many circuits; the order of the indices, the domain, the plans and the lookup of every other registry",
         sig="impl RegistryBuilder { pub fn finalize(self) -> (r: Result<Registry, Error>)",
         spec="""requires self.fits()
             ensures r.is_ok() == (self.total() <= 4 * rn()), r.is_err() ==> r->Err_0 == (Error::CircuitBoundExceeded { limit: (4 * rn()) as usize }),
                 r.is_ok() ==> r->Ok_0.inv() && r->Ok_0.circuits@ == self.order() && least(r->Ok_0.domain.log2_n as nat, self.total()),""",
         suffix=NUMS["num_circuits"] + NUMS["log2_circuits"] + "}", context=BUILDER + FINAL,
         transform=[CHAINS],
         names={"d": r"let (\w+) = Domain", "lg": r"let (\w+) = self\.log2_circuits", "look": r"let mut (\w+) = BTreeMap::new", "cs": r"let (\w+)(?:: [^=]*)? = self\s*\.internal_circuits", "reg": r"let mut (\w+) = Registry"},
         rewrite=[(r"Domain::<F>::new", "Domain::new", "field"), (r"\.into_iter\(\)", "", "a vector is consumed in order"), (r"\.collect\(\)", "", "vectors are already collected"), (r"crate::floor_planner::", "", "path"),
                  (r"let (\w+): Vec<_> = self", r"let \1: Vec<Obj> = self", "element type"), (r"Vec<Vec<ConstraintSegment>>", "Vec<Plan>", "a plan"),
                  (r"let (\w+) = Domain::new\(", r"proof { rank(); if $lg > rm() { if $lg - 1 > rm() { p2_less(rm(), ($lg - 1) as nat); } } prime_field(); p2_32(rm()); if $lg < rm() { p2_less($lg as nat, rm()); } p2_32($lg as nat); } let \1 = Domain::new(", "ghost")],
         loops=[dict(inv="invariant o0__.len() == it0.index(), it0.seq().len() == $cs.len(), forall|k: int| 0 <= k < $cs.len() ==> *(#[trigger] it0.seq()[k]) == $cs[k], forall|k: int| 0 <= k < o0__.len() ==> #[trigger] o0__[k] == plan_of($cs[k]),"),
                dict(inv="""invariant $d.inv(), $d.n == p2($lg as nat), $d.log2_n == $lg, $lg <= 32, $d.n <= 4 * rn(), 4 * rn() <= 0x8000_0000, $cs.len() <= $d.n, lookup_upto($look@, it1.index() as nat),""",
                     start="let ghost m0_ = $look@; let ghost k_ = it1.index() as nat; proof { point_in($d, k_); }",
                     end="""proof {
                         assert forall|i: nat| i < k_ + 1 implies #[trigger] $look@.contains_key(okey(point(i))) && $look@[okey(point(i))] == i by { if i < k_ { assert(m0_.contains_key(okey(point(i)))); if okey(point(i)) == okey(point(k_)) { separates(i, k_); } } }
                         assert forall|q: OmegaKey| #[trigger] $look@.contains_key(q) implies exists|i: nat| i < k_ + 1 && q == okey(#[trigger] point(i)) by { if q == okey(point(k_)) { } else { assert(m0_.contains_key(q)); let i = choose|i: nat| i < k_ && q == okey(#[trigger] point(i)); assert(q == okey(point(i))); } }
                     }""")]),
    dict(name="w_cached", file=REG, title="the interpolant at the point the cache is for, whatever is accumulated", sig="impl Registry { pub fn w_cached(&self, cache: &LagrangeCache, w_: Ghost<F>, pt: Ghost<F>) -> (r: T)",
         spec="requires self.inv(), self.cached(*cache, w_@) ensures mean(r, pt@) == self.inter(w_@, val(pt@)),", suffix="}",
         context="""
#[verifier::external_body] pub struct T { x: u64 }
pub uninterp spec fn mean(t: T, pt: F) -> F;
pub uninterp spec fn val(pt: F) -> spec_fn(Obj) -> F;
#[verifier::external_body] fn init() -> (r: T) ensures forall|pt: F| #[trigger] mean(r, pt) == fzero() { unimplemented!() }
#[verifier::external_body] fn add_poly(o: &Obj, p: &Plan, c: F, t: &mut T) requires *p == plan_of(*o) ensures forall|pt: F| #[trigger] mean(*final(t), pt) == fadd(mean(*old(t), pt), fmul(c, val(pt)(*o))) { unimplemented!() }
""", transform=[ENUMERATES], rewrite=[(r"&\*\*", "", "deref of a box")],
         names={"res": r"let mut (\w+) = init", "co": r"LagrangeCache::Interpolate\((\w+)\)"},
         pre="""let ghost a_ = vals(self.circuits@, self.domain.log2_n as nat, val(pt@)); let ghost cf_ = coeffs_(self.domain, self.circuits@, val(pt@));
             proof { coeffs_interpolate(self.domain, self.circuits@, val(pt@)); rank(); p2_32(self.domain.log2_n as nat); p2_32(rm());
                 match cache {
                     LagrangeCache::Interpolate(c) => { wsum_is(cf_, self.domain.omega, a_, c@, self.domain.n as nat); assert(weighted(cf_, self.domain.omega, c@, self.domain.n as nat) == ev(cf_, w_@)); }
                     LagrangeCache::Direct(i) => { self.at_index(*i as nat, val(pt@)); let v = val(pt@)(self.circuits[*i as int]); mone(v); azero(v); }
                     LagrangeCache::Empty => { let i = choose|i: nat| self.circuits.len() <= i < self.domain.n && w_@ == #[trigger] point(i); self.at_index(i, val(pt@)); }
                 } }""",
         loops=[dict(inv="""invariant self.inv(), c0__ == it0.index(), it0.seq().len() == coeffs.len(), forall|k: int| 0 <= k < coeffs.len() ==> *(#[trigger] it0.seq()[k]) == coeffs[k], coeffs.len() == self.domain.n, self.domain.n <= 0x1_0000_0000,
                         a_ == vals(self.circuits@, self.domain.log2_n as nat, val(pt@)), mean($res, pt@) == wsum(a_, coeffs@, it0.index() as nat),""".replace("coeffs", "$co"),
                     start="""proof { let k = it0.index() as nat; rev_less(k, self.domain.log2_n as nat); let c = $co[k as int]; zmul(c); add_zero(wsum(a_, $co@, k)); mul_comm(c, a_[k as int]);
                         assert(wsum(a_, $co@, k + 1) == fadd(wsum(a_, $co@, k), fmul(a_[k as int], c))); }""")]),
    start_closure("xy"), start_closure("x"), start_closure("y"),
    add_closure("xy"), add_closure("x"), add_closure("y"),
    wrapper("key_sxy", "the key term, also where a coordinate is zero", "key_sxy(&self, x: F, y: F) -> (r: F)", "ensures r == kterm(self.key.0, x, y),", "impl Key { #[verifier::external_body] fn value(&self) -> (r: F) ensures r == self.0 { unimplemented!() } }",
            [EQZ], pre="proof { rank(); if x == fzero() || y == fzero() { key_at_zero(self.key.0, x, y); } }"),
    dict(name="Key::value", fn="value", file=REG, title="the key", sig="impl Key { pub fn value(&self) -> (r: F)", spec="ensures r == self.0,", suffix="}"),
    dict(name="Key::new", fn="new", file=REG, within=r"impl<F: Field> Key<F>", title="the key", sig="impl Key { pub fn new(val: F) -> (r: Key)", spec="ensures r.0 == val,", suffix="}"),
    on("y", "the registry polynomial in X, at every point", "y(&self, y: F, w_: Ghost<F>) -> (r: Poly)", "requires self.good(w_@) ensures forall|x: F| #[trigger] pv(r, x) == self.registry.m(w_@, x, y),",
       "impl Key { #[verifier::external_body] fn value(&self) -> (r: F) ensures r == self.0 { unimplemented!() } }", rewrite=[EQZ, (r"sparse::View::<_, R, _>::", "WiringView::", "the wiring layout")], pre="proof { rank(); }",
       post="""proof { assert forall|x: F| #[trigger] pv(r__, x) == self.registry.m(w_@, x, y) by { let k = self.registry.key.0; key_split(k, x, y); let b = self.registry.inter(w_@, at_(x, y)); add_zero(b); if y == fzero() { key_at_zero(k, x, y); } } }"""),
    on("x", "the registry polynomial in Y, at every point", "x(&self, x: F, w_: Ghost<F>) -> (r: Poly)", "requires self.good(w_@) ensures forall|y: F| #[trigger] pv(r, y) == self.registry.m(w_@, x, y),",
       "impl Key { #[verifier::external_body] fn value(&self) -> (r: F) ensures r == self.0 { unimplemented!() } }", rewrite=[EQZ, VECZ, POLY, (r"Poly::from_coeffs\((\w+)\)", r"{ let ghost cs_ = \1@; proof { assert forall|y: F| #[trigger] ev(cs_, y) == fmul(cs_.last(), fpow(y, (4 * rn() - 1) as nat)) by { ev_last(cs_, y); } } Poly::from_coeffs(\1) }", "ghost")],
       pre="proof { rank(); }",
       post="""proof { assert forall|y: F| #[trigger] pv(r__, y) == self.registry.m(w_@, x, y) by { let k = self.registry.key.0; key_split(k, x, y); let b = self.registry.inter(w_@, at_(x, y)); add_zero(b); if x == fzero() { key_at_zero(k, x, y); } } }"""),
    on("xy", "the registry polynomial, at every point", "xy(&self, x: F, y: F, w_: Ghost<F>) -> (r: F)", "requires self.good(w_@) ensures r == self.registry.m(w_@, x, y),",
       "impl Registry { #[verifier::external_body] fn key_sxy(&self, x: F, y: F) -> (r: F) ensures r == kterm(self.key.0, x, y) { unimplemented!() } }"),
    wrapper("at", "weights outside the domain, the circuit of the point inside, nothing at unused points", "at(&self, w: F) -> (r: RegistryAt<'_>)", "requires self.inv() ensures r.registry == self, r.good(w),",
            "impl OmegaKey { #[verifier::external_body] fn from(w: F) -> (r: OmegaKey) ensures r == okey(w) { unimplemented!() } }",
            [(r"if let Some\(&(\w+)\) = ([^{]*)\{", r"if let Some(p__) = \2{ let \1 = *p__;", "the reference is dereferenced by name")],
            pre="""proof { if self.domain.has(w) { let i = which(self.domain, w); let m = self.omega_lookup@;
                if m.contains_key(okey(w)) { let j = choose|j: nat| j < self.circuits.len() && okey(w) == okey(#[trigger] point(j)); assert(m.contains_key(okey(point(j)))); separates(i, j); }
                else if i < self.circuits.len() { assert(m.contains_key(okey(point(i)))); } } }"""),
    wrapper("xy", "the registry polynomial in W, at every point", "xy(&self, x: F, y: F) -> (r: Poly)", "requires self.inv() ensures forall|w: F| #[trigger] pv(r, w) == self.m(w, x, y),",
            "impl Registry { #[verifier::external_body] fn key_sxy(&self, x: F, y: F) -> (r: F) ensures r == kterm(self.key.0, x, y) { unimplemented!() } }",
            [VECZ, POLY]) | dict(transform=[ENUMERATES],
                rewrite=[VECZ, POLY, (r"(\w+)\.ifft\(&mut (\w+)\[\.\.([^\]]*\(\))\]\);", r"let ghost v_ = \2@; proof { assert(v_.take(self.domain.n as int) =~= vals(self.circuits@, self.domain.log2_n as nat, at_(x, y))); } \1.ifft_prefix(&mut \2, \3); let ghost u_ = \2@;", "the inverse transform of a prefix"),
                         (r"Poly::from_coeffs\((\w+)\)", r"""{ let ghost t_ = \1@; proof { assert(u_.take(self.domain.n as int) == cf_); assert forall|i: int| self.domain.n <= i < u_.len() implies #[trigger] u_[i] == fzero() by { assert(u_[i] == u_.skip(self.domain.n as int)[i - self.domain.n]); assert(v_[i] == v_.skip(self.domain.n as int)[i - self.domain.n]); }
                             assert forall|w: F| #[trigger] ev(t_, w) == self.m(w, x, y) by { ev_pad(cf_, u_, self.domain.n as nat, w); ev_bump(u_, t_, kterm(self.key.0, x, y), w); } } Poly::from_coeffs(\1) }""", "ghost")],
                names={"co": r"let mut (\w+) = (?:alloc::)?vec"},
                pre="let ghost cf_ = coeffs_(self.domain, self.circuits@, at_(x, y)); proof { rank(); p2_32(rm()); p2_pos(self.domain.log2_n as nat); coeffs_interpolate(self.domain, self.circuits@, at_(x, y)); }",
                loops=[dict(inv="""invariant self.inv(), c0__ == it0.index(), it0.seq().len() == self.circuits.len(), forall|k: int| 0 <= k < self.circuits.len() ==> *(#[trigger] it0.seq()[k]) == self.circuits[k], self.domain.n <= 0x8000_0000, $co.len() == 4 * rn(),
                         forall|k: int| 0 <= k < $co.len() ==> #[trigger] $co[k] == (if k < self.domain.n && rev(k as nat, self.domain.log2_n as nat) < it0.index() { s_(self.circuits[rev(k as nat, self.domain.log2_n as nat) as int], x, y) } else { fzero() }),""",
                     start="let ghost k_ = it0.index() as nat; proof { rev_less(k_, self.domain.log2_n as nat); rev_rev(k_, self.domain.log2_n as nat); } let ghost c_ = $co@;",
                     end="""proof { let l = self.domain.log2_n as nat; assert forall|k: int| 0 <= k < $co.len() implies #[trigger] $co[k] == (if k < self.domain.n && rev(k as nat, l) < k_ + 1 { s_(self.circuits[rev(k as nat, l) as int], x, y) } else { fzero() }) by {
                         assert(c_[k] == (if k < self.domain.n && rev(k as nat, l) < k_ { s_(self.circuits[rev(k as nat, l) as int], x, y) } else { fzero() })); if k < self.domain.n { rev_rev(k as nat, l); } } }""")]),
    wrapper("wy", "the registry polynomial in X", "wy(&self, w: F, y: F) -> (r: Poly)", "requires self.inv() ensures forall|x: F| #[trigger] pv(r, x) == self.m(w, x, y),", ATSTUB, [ghosted("y")]),
    wrapper("wx", "the registry polynomial in Y", "wx(&self, w: F, x: F) -> (r: Poly)", "requires self.inv() ensures forall|y: F| #[trigger] pv(r, y) == self.m(w, x, y),", ATSTUB, [ghosted("x")]),
    wrapper("wxy", "the registry polynomial", "wxy(&self, w: F, x: F, y: F) -> (r: F)", "requires self.inv() ensures r == self.m(w, x, y),", ATSTUB, [ghosted("xy")]),
    wrapper("circuit_y", "the wiring polynomial of the circuit plus the key term, for every registered index", "circuit_y(&self, i: CircuitIndex, y: F) -> (r: Poly)",
            "requires self.inv(), i.0 < self.circuits.len() ensures forall|x: F| #[trigger] pv(r, x) == fadd(s_(self.circuits[i.0 as int], x, y), kterm(self.key.0, x, y)),", ATSTUB + OMEGAJ, [ghosted("y")],
            pre="proof { if self.domain.log2_n < two_adicity() { p2_less(self.domain.log2_n as nat, two_adicity() as nat); } }",
            post="proof { assert forall|x: F| #[trigger] pv(r__, x) == fadd(s_(self.circuits[i.0 as int], x, y), kterm(self.key.0, x, y)) by { self.circuit_at(i.0 as nat, x, y); } }"),
    wrapper("circuit_xy", "the value of the wiring polynomial of the circuit plus the key term, for every registered index", "circuit_xy(&self, i: CircuitIndex, x: F, y: F) -> (r: F)",
            "requires self.inv(), i.0 < self.circuits.len() ensures r == fadd(s_(self.circuits[i.0 as int], x, y), kterm(self.key.0, x, y)),",
            OMEGAJ + "impl Registry { #[verifier::external_body] fn wxy(&self, w: F, x: F, y: F) -> (r: F) requires self.inv() ensures r == self.m(w, x, y) { unimplemented!() } }",
            pre="proof { if self.domain.log2_n < two_adicity() { p2_less(self.domain.log2_n as nat, two_adicity() as nat); } self.circuit_at(i.0 as nat, x, y); }"),
    wrapper("circuit_in_domain", "true exactly for the indices below the size of the domain", "circuit_in_domain(&self, i: CircuitIndex) -> (r: bool)",
            "requires self.inv(), i.0 < p2(two_adicity() as nat) ensures r == (i.0 < self.domain.n),", OMEGAJ, pre="proof { membership(self.domain, i.0 as nat); }"),
    wrapper("constraint_counts", "of the circuit of that index", "constraint_counts(&self, circuit: CircuitIndex) -> (r: (usize, usize))", "requires circuit.0 < self.circuits.len() ensures r == counts_(self.circuits[circuit.0 as int]),", "", [USIZE]),
    wrapper("assemble_with_alpha", "assembled by the plan of the circuit of that index", "assemble_with_alpha(&self, trace: &Trace, circuit: CircuitIndex, alpha: F) -> (r: Poly)",
            "requires self.inv(), circuit.0 < self.circuits.len() ensures r == assembled(*trace, plan_of(self.circuits[circuit.0 as int]), alpha),",
            "#[verifier::external_body] pub struct Trace { x: u64 } pub uninterp spec fn assembled(t: Trace, p: Plan, a: F) -> Poly; impl Trace { #[verifier::external_body] fn assemble(&self, p: &Plan, a: F) -> (r: Poly) ensures r == assembled(*self, *p, a) { unimplemented!() } }", [USIZE]),
    wrapper("digest", "the key", "digest(&self) -> (r: F)", "ensures r == self.key.0,", "impl Key { #[verifier::external_body] fn value(&self) -> (r: F) ensures r == self.0 { unimplemented!() } }"),
    wrapper("num_circuits", "the number of registered circuits", "num_circuits(&self) -> (r: usize)", "ensures r == self.circuits.len(),"),
]
