"""C08, unbounded: the evaluators of s(X, Y), operation by operation, for every rank, point and wiring.

`den` is any assignment of field elements to wires that respects the linear combinations of the live virtual wires. What
s(X, y) has accumulated, read through `den`, is invariant under everything but a constraint, which adds its own
combination times its power of y."""
from field import prelude
import re

from verus import ASSERTS, Lost, close, mask, split_args, unbrace

SY = "crates/ragu_circuits/src/s/sy.rs"
SX = "crates/ragu_circuits/src/s/sx.rs"
SXY = "crates/ragu_circuits/src/s/sxy.rs"
COMMON = "crates/ragu_circuits/src/s/common.rs"
COEFF = "crates/ragu_arithmetic/src/coeff.rs"

ASSUME = [
    "RefCell hands out the one virtual table; Rust drops every wire handle exactly once (Clone, Drop and increment_refcount are under contract for what they do to the table)",
]

BASE = """
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
pub proof fn zmul(x: F) ensures fmul(fzero(), x) == fzero() { mul_comm(fzero(), x); mul_zero(x); }
pub proof fn azero(a: F) ensures fadd(fzero(), a) == a { add_comm(a, fzero()); add_zero(a); }
#[derive(Copy, Clone)]
pub enum Coeff { Zero, One, Two, NegativeOne, Arbitrary(F), NegativeArbitrary(F) }
impl Coeff {
    pub open spec fn v(self) -> F { match self { Coeff::Zero => fzero(), Coeff::One => fone(), Coeff::Two => fadd(fone(), fone()), Coeff::NegativeOne => fneg(fone()), Coeff::Arbitrary(a) => a, Coeff::NegativeArbitrary(a) => fneg(a) } }
}
"""
COEFFS = """
/// products and sums of coefficients by their value: each is under its own contract
pub uninterp spec fn cmul(a: Coeff, b: Coeff) -> Coeff;
pub uninterp spec fn cadd(a: Coeff, b: Coeff) -> Coeff;
pub axiom fn cmul_v(a: Coeff, b: Coeff) ensures cmul(a, b).v() == fmul(a.v(), b.v());
pub axiom fn cadd_v(a: Coeff, b: Coeff) ensures cadd(a, b).v() == fadd(a.v(), b.v());
impl vstd::std_specs::ops::MulSpecImpl<Coeff> for Coeff { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Coeff) -> bool { true } open spec fn mul_spec(self, o: Coeff) -> Coeff { cmul(self, o) } }
impl core::ops::Mul<Coeff> for Coeff { type Output = Coeff; #[verifier::external_body] fn mul(self, o: Coeff) -> Coeff { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Coeff> for Coeff { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Coeff) -> bool { true } open spec fn add_spec(self, o: Coeff) -> Coeff { cadd(self, o) } }
impl core::ops::Add<Coeff> for Coeff { type Output = Coeff; #[verifier::external_body] fn add(self, o: Coeff) -> Coeff { unimplemented!() } }
impl Coeff {
    #[verifier::external_body] pub fn value(&self) -> (r: F) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == fzero()) { unimplemented!() }
}
"""
TABLE = """
#[derive(Copy, Clone)]
pub enum WireIndex { A(usize), B(usize), C(usize), D(usize), Virtual(usize) }
pub type Term = (WireIndex, Coeff);
pub struct VirtualWire { pub refcount: usize, pub terms: Vec<Term>, pub value: Coeff }
pub struct VirtualTable { pub wires: Vec<VirtualWire>, pub free: Vec<usize>, pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
/// an assignment of field elements to wires
pub type Den = spec_fn(WireIndex) -> F;
pub open spec fn comb(s: Seq<Term>, den: Den) -> F decreases s.len() { if s.len() == 0 { fzero() } else { fadd(comb(s.drop_last(), den), fmul(s.last().1.v(), den(s.last().0))) } }
pub open spec fn row(s: Seq<F>, g: spec_fn(int) -> F) -> F decreases s.len() { if s.len() == 0 { fzero() } else { fadd(row(s.drop_last(), g), fmul(s.last(), g(s.len() - 1))) } }
pub proof fn row_update(s: Seq<F>, g: spec_fn(int) -> F, i: int, x: F)
    requires 0 <= i < s.len() ensures row(s.update(i, fadd(s[i], x)), g) == fadd(row(s, g), fmul(x, g(i))) decreases s.len()
{
    let t = s.update(i, fadd(s[i], x)); let n = s.len() - 1;
    if i == n {
        assert(t.drop_last() =~= s.drop_last());
        let p = row(s.drop_last(), g);
        mul_comm(fadd(s[i], x), g(i)); distr(g(i), s[i], x); mul_comm(g(i), s[i]); mul_comm(g(i), x);
        add_assoc(p, fmul(s[i], g(i)), fmul(x, g(i)));
    } else {
        row_update(s.drop_last(), g, i, x);
        assert(t.drop_last() =~= s.drop_last().update(i, fadd(s.drop_last()[i], x)));
        let (p, u, l) = (row(s.drop_last(), g), fmul(x, g(i)), fmul(s.last(), g(n)));
        add_assoc(p, u, l); add_comm(u, l); add_assoc(p, l, u);
    }
}
pub open spec fn hit(w: WireIndex, i: int) -> int { if w == WireIndex::Virtual(i as usize) && 0 <= i <= usize::MAX { 1 } else { 0 } }
/// how often virtual wire i occurs in a list of terms
pub open spec fn count(s: Seq<Term>, i: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), i) + hit(s.last().0, i) } }
pub proof fn count_pos(s: Seq<Term>, i: int) ensures count(s, i) >= 0 decreases s.len() { if s.len() > 0 { count_pos(s.drop_last(), i); } }
pub proof fn count_first(s: Seq<Term>, i: int) requires s.len() > 0 ensures count(s, i) == hit(s[0].0, i) + count(s.skip(1), i) decreases s.len() {
    if s.len() > 1 { count_first(s.drop_last(), i); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(s.skip(1).last() == s.last()); } else { assert(s.skip(1) =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty()); }
}
pub open spec fn occ(ws: Seq<VirtualWire>, i: int) -> int decreases ws.len() { if ws.len() == 0 { 0 } else { occ(ws.drop_last(), i) + count(ws.last().terms@, i) } }
pub proof fn occ_pos(ws: Seq<VirtualWire>, i: int) ensures occ(ws, i) >= 0 decreases ws.len() { if ws.len() > 0 { occ_pos(ws.drop_last(), i); count_pos(ws.last().terms@, i); } }
pub proof fn occ_same(s: Seq<VirtualWire>, t: Seq<VirtualWire>, i: int) requires s.len() == t.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).terms@ == t[k].terms@ ensures occ(s, i) == occ(t, i) decreases s.len() { if s.len() > 0 { occ_same(s.drop_last(), t.drop_last(), i); } }
pub proof fn occ_change(s: Seq<VirtualWire>, t: Seq<VirtualWire>, k: int, i: int)
    requires s.len() == t.len(), 0 <= k < s.len(), forall|j: int| 0 <= j < s.len() && j != k ==> (#[trigger] s[j]).terms@ == t[j].terms@
    ensures occ(t, i) == occ(s, i) - count(s[k].terms@, i) + count(t[k].terms@, i) decreases s.len()
{
    if k == s.len() - 1 { occ_same(s.drop_last(), t.drop_last(), i); } else { occ_change(s.drop_last(), t.drop_last(), k, i); }
}
pub proof fn occ_has(s: Seq<VirtualWire>, k: int, i: int) requires 0 <= k < s.len() ensures occ(s, i) >= count(s[k].terms@, i) decreases s.len() {
    if k == s.len() - 1 { occ_pos(s.drop_last(), i); } else { occ_has(s.drop_last(), k, i); count_pos(s.last().terms@, i); }
}
pub open spec fn refs(ws: Seq<VirtualWire>) -> nat decreases ws.len() { if ws.len() == 0 { 0 } else { refs(ws.drop_last()) + ws.last().refcount as nat } }
pub proof fn refs_same(s: Seq<VirtualWire>, t: Seq<VirtualWire>) requires s.len() == t.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).refcount == t[k].refcount ensures refs(s) == refs(t) decreases s.len() { if s.len() > 0 { refs_same(s.drop_last(), t.drop_last()); } }
pub proof fn refs_change(s: Seq<VirtualWire>, t: Seq<VirtualWire>, k: int)
    requires s.len() == t.len(), 0 <= k < s.len(), forall|j: int| 0 <= j < s.len() && j != k ==> (#[trigger] s[j]).refcount == t[j].refcount
    ensures refs(t) == refs(s) - s[k].refcount + t[k].refcount decreases s.len()
{
    if k == s.len() - 1 { refs_same(s.drop_last(), t.drop_last()); } else { refs_change(s.drop_last(), t.drop_last(), k); }
}
pub open spec fn times_in(s: Seq<usize>, i: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { times_in(s.drop_last(), i) + (if s.last() == i { 1int } else { 0 }) } }
pub open spec fn values(ws: Seq<VirtualWire>) -> Seq<F> { Seq::new(ws.len(), |i: int| ws[i].value.v()) }
impl VirtualTable {
    pub open spec fn has(&self, w: WireIndex) -> bool { match w { WireIndex::A(i) => i < self.a.len(), WireIndex::B(i) => i < self.b.len(), WireIndex::C(i) => i < self.c.len(), WireIndex::D(i) => i < self.d.len(), WireIndex::Virtual(i) => i < self.wires.len() } }
    /// references held outside the table: handles, and terms taken out of it
    pub open spec fn held(&self, i: int) -> int { self.wires[i].refcount - occ(self.wires@, i) }
    pub open spec fn listed(&self, k: int) -> bool { forall|j: int| 0 <= j < self.wires[k].terms.len() ==> self.has((#[trigger] self.wires[k].terms[j]).0) }
    pub open spec fn sound(&self) -> bool { (forall|k: int| 0 <= k < self.wires.len() ==> #[trigger] self.listed(k)) && forall|i: int| 0 <= i < self.wires.len() ==> #[trigger] self.held(i) >= 0 }
    pub open spec fn shape(&self, o: &VirtualTable) -> bool { self.wires.len() == o.wires.len() && self.a.len() == o.a.len() && self.b.len() == o.b.len() && self.c.len() == o.c.len() && self.d.len() == o.d.len() }
    /// den respects the live combinations
    pub open spec fn reads(&self, den: Den) -> bool { forall|i: int| 0 <= i < self.wires.len() && (#[trigger] self.wires[i]).refcount > 0 ==> den(WireIndex::Virtual(i as usize)) == comb(self.wires[i].terms@, den) }
    /// everything accumulated so far, read through den
    pub open spec fn total(&self, den: Den) -> F {
        fadd(fadd(fadd(row(self.a@, |i: int| den(WireIndex::A(i as usize))), row(self.b@, |i: int| den(WireIndex::B(i as usize)))),
            fadd(row(self.c@, |i: int| den(WireIndex::C(i as usize))), row(self.d@, |i: int| den(WireIndex::D(i as usize))))), row(values(self.wires@), |i: int| den(WireIndex::Virtual(i as usize))))
    }
    /// what a call may do to the other wires
    pub open spec fn later(&self, o: &VirtualTable, i: int) -> bool {
        &&& self.wires[i].refcount <= o.wires[i].refcount
        &&& self.wires[i].refcount > 0 ==> self.wires[i].terms@ == o.wires[i].terms@
        &&& o.wires[i].refcount == 0 ==> self.wires[i] == o.wires[i]
        &&& o.wires[i].refcount > 0 && self.wires[i].refcount == 0 ==> self.wires[i].terms.len() == 0 && self.wires[i].value.v() == fzero()
        &&& times_in(self.free@, i) == times_in(o.free@, i) + (if o.wires[i].refcount > 0 && self.wires[i].refcount == 0 { 1int } else { 0 })
    }
}
pub proof fn add_into(a: F, b: F, c: F, d: F, e: F, x: F)
    ensures ({ let t = fadd(fadd(fadd(a, b), fadd(c, d)), e);
        fadd(t, x) == fadd(fadd(fadd(fadd(a, x), b), fadd(c, d)), e) && fadd(t, x) == fadd(fadd(fadd(a, fadd(b, x)), fadd(c, d)), e)
        && fadd(t, x) == fadd(fadd(fadd(a, b), fadd(fadd(c, x), d)), e) && fadd(t, x) == fadd(fadd(fadd(a, b), fadd(c, fadd(d, x))), e) && fadd(t, x) == fadd(fadd(fadd(a, b), fadd(c, d)), fadd(e, x)) })
{
    let (p, q) = (fadd(a, b), fadd(c, d)); let s = fadd(p, q);
    add_assoc(s, e, x); add_comm(e, x); add_assoc(s, x, e);
    // s + x = (p + x) + q = p + (q + x)
    add_assoc(p, q, x); add_comm(q, x); add_assoc(p, x, q);
    add_assoc(a, b, x); add_comm(b, x); add_assoc(a, x, b);
    add_assoc(c, d, x); add_comm(d, x); add_assoc(c, x, d);
}
pub open spec fn put(s: Seq<F>, t: Seq<F>, here: bool, k: int, x: F) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (if here && i == k { fadd(s[i], x) } else { s[i] }) }
/// t is s with x added at one wire
pub open spec fn bumped(s: VirtualTable, t: VirtualTable, w: WireIndex, x: F) -> bool {
    &&& put(s.a@, t.a@, w is A, w->A_0 as int, x)
    &&& put(s.b@, t.b@, w is B, w->B_0 as int, x)
    &&& put(s.c@, t.c@, w is C, w->C_0 as int, x)
    &&& put(s.d@, t.d@, w is D, w->D_0 as int, x)
    &&& t.wires.len() == s.wires.len()
    &&& forall|i: int| 0 <= i < s.wires.len() ==> (#[trigger] t.wires[i]).value.v() == (if w is Virtual && i == w->Virtual_0 { fadd(s.wires[i].value.v(), x) } else { s.wires[i].value.v() })
}
pub proof fn row_put(s: Seq<F>, t: Seq<F>, here: bool, k: int, x: F, g: spec_fn(int) -> F) requires put(s, t, here, k, x), here ==> 0 <= k < s.len() ensures row(t, g) == (if here { fadd(row(s, g), fmul(x, g(k))) } else { row(s, g) }) {
    if here { row_update(s, g, k, x); assert(t =~= s.update(k, fadd(s[k], x))); } else { assert(t =~= s); }
}
pub proof fn bump(s: VirtualTable, t: VirtualTable, w: WireIndex, x: F, den: Den) requires s.has(w), bumped(s, t, w, x) ensures t.total(den) == fadd(s.total(den), fmul(x, den(w))) {
    let (ga, gb, gc, gd, gv) = (|i: int| den(WireIndex::A(i as usize)), |i: int| den(WireIndex::B(i as usize)), |i: int| den(WireIndex::C(i as usize)), |i: int| den(WireIndex::D(i as usize)), |i: int| den(WireIndex::Virtual(i as usize)));
    let (vs, vt) = (values(s.wires@), values(t.wires@));
    assert(put(vs, vt, w is Virtual, w->Virtual_0 as int, x));
    row_put(s.a@, t.a@, w is A, w->A_0 as int, x, ga); row_put(s.b@, t.b@, w is B, w->B_0 as int, x, gb); row_put(s.c@, t.c@, w is C, w->C_0 as int, x, gc); row_put(s.d@, t.d@, w is D, w->D_0 as int, x, gd); row_put(vs, vt, w is Virtual, w->Virtual_0 as int, x, gv);
    add_into(row(s.a@, ga), row(s.b@, gb), row(s.c@, gc), row(s.d@, gd), row(vs, gv), fmul(x, den(w)));
}
"""
T_ADD = """impl VirtualTable {
    #[verifier::external_body] fn add(&mut self, index: WireIndex, value: Coeff) %s { unimplemented!() }
}
"""
ADD_SPEC = """requires old(self).has(index)
    ensures final(self).shape(old(self)), final(self).free@ == old(self).free@,
        forall|i: int| 0 <= i < old(self).wires.len() ==> (#[trigger] final(self).wires[i]).refcount == old(self).wires[i].refcount && final(self).wires[i].terms@ == old(self).wires[i].terms@ && (index != WireIndex::Virtual(i as usize) ==> final(self).wires[i] == old(self).wires[i]),
        forall|den: Den| #[trigger] final(self).total(den) == fadd(old(self).total(den), fmul(value.v(), den(index))),"""
FREE_SPEC = """requires old(self).sound(), old(self).has(index), match index { WireIndex::Virtual(i) => old(self).held(i as int) >= 1, _ => true }
    ensures final(self).shape(old(self)), final(self).sound(),
        forall|i: int| 0 <= i < old(self).wires.len() ==> #[trigger] final(self).held(i) == old(self).held(i) - hit(index, i),
        forall|i: int| #![trigger final(self).wires[i]] #![trigger final(self).later(old(self), i)] 0 <= i < old(self).wires.len() ==> final(self).later(old(self), i),
        forall|i: int| i < 0 || i >= old(self).wires.len() ==> #[trigger] times_in(final(self).free@, i) == times_in(old(self).free@, i),
        match index { WireIndex::Virtual(i) => refs(final(self).wires@) < refs(old(self).wires@), _ => *final(self) == *old(self) },
        forall|den: Den| old(self).reads(den) ==> #[trigger] final(self).total(den) == old(self).total(den),"""

PRELUDE = prelude(BASE + "//@CODE_PRE").replace("verus! {\n", "verus! {\nglobal size_of usize == 8;\n", 1).replace("//@CODE_PRE", "")



OPS = """
/// a linear combination as the driver sees it: terms and gains in order
pub enum Op<W> { Term(W, Coeff), Gain(Coeff) }
/// sum so far and gain in force
pub open spec fn meaning<W>(s: Seq<Op<W>>, den: spec_fn(W) -> F) -> (F, F) decreases s.len() {
    if s.len() == 0 { (fzero(), fone()) } else { let p = meaning(s.drop_last(), den);
        match s.last() { Op::Term(w, c) => (fadd(p.0, fmul(den(w), fmul(c.v(), p.1))), p.1), Op::Gain(c) => (p.0, fmul(p.1, c.v())) } }
}
pub proof fn step<W>(s: Seq<Op<W>>, den: spec_fn(W) -> F, k: int) requires 0 <= k < s.len() ensures meaning(s.take(k + 1), den) == ({ let p = meaning(s.take(k), den); match s[k] { Op::Term(w, c) => (fadd(p.0, fmul(den(w), fmul(c.v(), p.1))), p.1), Op::Gain(c) => (p.0, fmul(p.1, c.v())) } }) {
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
"""
EVALS = """
#[derive(Copy, Clone)]
pub enum WireEval { Value(F), One }
pub open spec fn ev(w: WireEval, one: F) -> F { match w { WireEval::Value(v) => v, WireEval::One => one } }
pub open spec fn evs(one: F) -> spec_fn(WireEval) -> F { |w: WireEval| ev(w, one) }
pub struct WireEvalSum { pub value: F, pub one: F, pub gain: Coeff }
"""
SUMS = """impl WireEvalSum {
    #[verifier::external_body] fn new(one: F) -> (r: WireEvalSum) ensures r.value == fzero(), r.one == one, r.gain.v() == fone() { unimplemented!() }
    #[verifier::external_body] fn add_term(self, w: &WireEval, coeff: Coeff) -> (r: WireEvalSum) ensures r.value == fadd(self.value, fmul(ev(*w, self.one), fmul(coeff.v(), self.gain.v()))), r.one == self.one, r.gain == self.gain { unimplemented!() }
    #[verifier::external_body] fn gain_(self, coeff: Coeff) -> (r: WireEvalSum) ensures r.value == self.value, r.one == self.one, r.gain.v() == fmul(self.gain.v(), coeff.v()) { unimplemented!() }
}
/// running a linear combination: proved from the contracts of its operations
fn apply(lc: &Vec<Op<WireEval>>, s: WireEvalSum) -> (r: WireEvalSum) requires s.value == fzero(), s.gain.v() == fone() ensures r.value == meaning(lc@, evs(s.one)).0 {
    let mut t = s; let mut k = 0;
    proof { assert(lc@.take(0) =~= Seq::empty()); }
    while k < lc.len() invariant 0 <= k <= lc.len(), t.one == s.one, t.value == meaning(lc@.take(k as int), evs(s.one)).0, t.gain.v() == meaning(lc@.take(k as int), evs(s.one)).1, decreases lc.len() - k {
        proof { step(lc@, evs(s.one), k as int); }
        t = match &lc[k] { Op::Term(w, c) => t.add_term(w, *c), Op::Gain(c) => t.gain_(*c) };
        k += 1;
    }
    proof { assert(lc@.take(lc.len() as int) =~= lc@); }
    t
}
"""
RANK_ = """
pub uninterp spec fn rn() -> nat;
pub axiom fn rank() ensures rn() >= 1, 4 * rn() <= usize::MAX;
#[verifier::external_body] fn rank_n() -> (r: usize) ensures r == rn() { unimplemented!() }
#[verifier::external_body] fn rank_coeffs() -> (r: usize) ensures r == 4 * rn() { unimplemented!() }
pub enum Error { GateBoundExceeded { limit: usize }, ConstraintBoundExceeded { limit: usize }, Other }
pub uninterp spec fn finv(a: F) -> F;
pub axiom fn inv_mul(a: F) requires a != fzero() ensures fmul(a, finv(a)) == fone();
impl F {
    #[verifier::external_body] pub fn pow_vartime(&self, e: [u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as nat) { unimplemented!() }
    #[verifier::external_body] pub fn eq_(&self, o: F) -> (r: bool) ensures r == (*self == o) { unimplemented!() }
    #[verifier::external_body] pub fn inverse(&self) -> (r: F) requires *self != fzero() ensures r == finv(*self) { unimplemented!() }
}
pub proof fn mone(a: F) ensures fmul(fone(), a) == a { mul_comm(a, fone()); mul_one(a); }
/// x times its power is the next power; its inverse times a power is the one before
pub proof fn up(x: F, k: nat) ensures fmul(fpow(x, k), x) == fpow(x, k + 1) { assert((k + 1 - 1) as nat == k); }
pub proof fn down(x: F, i: F, k: nat) requires fmul(x, i) == fone(), k >= 1 ensures fmul(fpow(x, k), i) == fpow(x, (k - 1) as nat) { mul_assoc(fpow(x, (k - 1) as nat), x, i); mul_one(fpow(x, (k - 1) as nat)); }
pub proof fn downs(x: F, i: F, k: nat, m: nat) requires fmul(x, i) == fone(), m <= k ensures fmul(fpow(x, k), fpow(i, m)) == fpow(x, (k - m) as nat) decreases m {
    if m == 0 { mul_one(fpow(x, k)); } else { downs(x, i, k, (m - 1) as nat); mul_assoc(fpow(x, k), fpow(i, (m - 1) as nat), i); down(x, i, (k - m + 1) as nat); }
}
#[derive(Copy, Clone)]
pub struct ConstraintSegment { pub gate_start: usize, pub constraint_start: usize, pub num_gates: usize, pub num_constraints: usize }
/// the power of Y of constraint q of a segment: the first one gets the highest
pub open spec fn mirror(seg: ConstraintSegment, q: int) -> int { 2 * seg.constraint_start + seg.num_constraints - 1 - q }
/// the exponents of the four wires of gate i
pub open spec fn pa(i: int) -> nat { (2 * rn() - 1 - i) as nat }
pub open spec fn pb(i: int) -> nat { (2 * rn() + i) as nat }
pub open spec fn pc(i: int) -> nat { (4 * rn() - 1 - i) as nat }
pub open spec fn pd(i: int) -> nat { i as nat }
"""


def EVAL(sxy):
    extra = "pub result: F, pub sum: F, " if sxy else ""
    own = "pub y: F," if sxy else "pub result: Vec<F>,"
    return f"""
pub struct Scope {{ pub available_d: Option<WireEval>, pub current_a_x: F, pub current_b_x: F, pub current_c_x: F, pub gates: usize, pub constraints: usize, {extra} }}
pub struct Evaluator {{ pub scope: Scope, pub x: F, pub x_inv: F, {own} pub one: F, pub base_a_x: F, pub base_b_x: F, pub base_c_x: F, pub b_to_d: F, pub floor_plan: Vec<ConstraintSegment>, pub current_routine: usize }}
impl Evaluator {{
    /// the constants of the point x
    pub open spec fn point(&self) -> bool {{
        fmul(self.x, self.x_inv) == fone() && self.one == fpow(self.x, 2 * rn()) && self.base_a_x == fpow(self.x, pa(0)) && self.base_b_x == fpow(self.x, pb(0)) && self.base_c_x == fpow(self.x, pc(0)) && self.b_to_d == fpow(self.x_inv, 2 * rn())
    }}
    /// the running monomials are those of the next gate
    pub open spec fn inv(&self) -> bool {{
        self.point() && self.scope.gates <= rn() && self.scope.current_a_x == fpow(self.x, pa(self.scope.gates as int)) && self.scope.current_b_x == fpow(self.x, pb(self.scope.gates as int)) && self.scope.current_c_x == fpow(self.x, pc(self.scope.gates as int))
    }}
    pub open spec fn same_point(&self, o: &Evaluator) -> bool {{ self.x == o.x && self.x_inv == o.x_inv && self.one == o.one && self.base_a_x == o.base_a_x && self.base_b_x == o.base_b_x && self.base_c_x == o.base_c_x && self.b_to_d == o.b_to_d && self.floor_plan == o.floor_plan {"&& self.y == o.y" if sxy else "&& self.result.len() == o.result.len()"} }}
    pub open spec fn results(&self, o: &Evaluator) -> bool {{ {"self.scope.result == o.scope.result && self.scope.sum == o.scope.sum" if sxy else "self.result == o.result"} }}
}}
"""


ADVANCE = """requires old(self).inv() ensures final(self).inv(), final(self).same_point(old(self)), final(self).results(old(self)), final(self).current_routine == old(self).current_routine, final(self).scope.available_d == old(self).scope.available_d, final(self).scope.constraints == old(self).scope.constraints,
        r.is_ok() == (old(self).scope.gates < rn()), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> final(self).scope.gates == old(self).scope.gates + 1 && ({ let i = old(self).scope.gates as int; let x = old(self).x; %s }),"""
ABC = ADVANCE % "r->Ok_0 == ((fpow(x, pa(i)), fpow(x, pb(i)), fpow(x, pc(i))))"
GATE = ADVANCE % "r->Ok_0 == ((WireEval::Value(fpow(x, pa(i))), WireEval::Value(fpow(x, pb(i))), WireEval::Value(fpow(x, pc(i))), WireEval::Value(fpow(x, pd(i)))))"
MUL = ADVANCE % "r->Ok_0 == ((WireEval::Value(fpow(x, pa(i))), WireEval::Value(fpow(x, pb(i))), WireEval::Value(fpow(x, pc(i)))))"
ALLOC = """requires old(self).inv() ensures final(self).inv(), final(self).same_point(old(self)), final(self).results(old(self)), final(self).current_routine == old(self).current_routine, final(self).scope.constraints == old(self).scope.constraints,
        match old(self).scope.available_d {
            Some(w) => r == Ok::<WireEval, Error>(w) && final(self).scope.available_d is None && final(self).scope.gates == old(self).scope.gates,
            None => r.is_ok() == (old(self).scope.gates < rn()) && (r.is_ok() ==> final(self).scope.gates == old(self).scope.gates + 1 && ({ let i = old(self).scope.gates as int; let x = old(self).x; r->Ok_0 == WireEval::Value(fpow(x, pb(i))) && final(self).scope.available_d == Some(WireEval::Value(fpow(x, pd(i)))) })),
        },"""
LAWS = """
pub axiom fn one_nonzero() ensures fone() != fzero();
/// the field has odd characteristic
pub axiom fn two_nonzero() ensures fadd(fone(), fone()) != fzero();
pub proof fn mone(a: F) ensures fmul(fone(), a) == a { mul_comm(a, fone()); mul_one(a); }
pub proof fn neg_zero() ensures fneg(fzero()) == fzero() { add_neg(fzero()); azero(fneg(fzero())); }
pub proof fn double(a: F) ensures fmul(a, fadd(fone(), fone())) == fadd(a, a), fmul(fadd(fone(), fone()), a) == fadd(a, a) { distr(a, fone(), fone()); mul_one(a); mul_comm(a, fadd(fone(), fone())); }
pub proof fn negone(a: F) ensures fmul(a, fneg(fone())) == fneg(a) { neg_mul(a, fone()); mul_one(a); }
pub proof fn neg_add(a: F, b: F) ensures fneg(fadd(a, b)) == fadd(fneg(a), fneg(b)) { let m = fneg(fone()); let s = fadd(a, b); mul_comm(s, m); distr(m, a, b); mul_comm(a, m); mul_comm(b, m); negone(a); negone(b); negone(s); }
pub open spec fn inner(c: Coeff) -> F { match c { Coeff::Arbitrary(a) => a, Coeff::NegativeArbitrary(a) => a, _ => fone() } }
pub proof fn negs(c: Coeff) ensures forall|d: Coeff| ({ let (a, b) = (inner(c), #[trigger] inner(d)); fmul(a, fneg(b)) == fneg(fmul(a, b)) && fmul(fneg(b), a) == fneg(fmul(a, b)) && fmul(fneg(a), fneg(b)) == fmul(a, b) && fmul(a, b) == fmul(b, a) }), fneg(fneg(inner(c))) == inner(c) {
    neg_neg(inner(c));
    assert forall|d: Coeff| ({ let (a, b) = (inner(c), #[trigger] inner(d)); fmul(a, fneg(b)) == fneg(fmul(a, b)) && fmul(fneg(b), a) == fneg(fmul(a, b)) && fmul(fneg(a), fneg(b)) == fmul(a, b) && fmul(a, b) == fmul(b, a) }) by {
        let (a, b) = (inner(c), inner(d)); neg_mul(a, b); mul_comm(a, fneg(b)); mul_comm(a, b); neg_mul(fneg(b), a); mul_comm(fneg(a), fneg(b)); neg_neg(fmul(a, b));
    }
}
pub proof fn sums(c: Coeff, d: Coeff) ensures ({ let (a, b) = (inner(c), inner(d)); fadd(a, b) == fadd(b, a) && fneg(fadd(a, b)) == fadd(fneg(a), fneg(b)) && fadd(fneg(a), b) == fadd(b, fneg(a)) && fadd(fneg(a), fneg(b)) == fadd(fneg(b), fneg(a)) }) {
    let (a, b) = (inner(c), inner(d)); add_comm(a, b); neg_add(a, b); add_comm(fneg(a), b); add_comm(fneg(a), fneg(b));
}
impl F { #[verifier::external_body] pub fn vanishes(&self) -> (r: bool) ensures r == (*self == fzero()) { unimplemented!() } }
"""
VALUE = """impl Coeff { #[verifier::external_body] pub fn value(&self) -> (r: F) ensures r == self.v() { unimplemented!() } }
"""
SELF_ = (r"\bself\b", "this", "the receiver, taken by value")
NARROW = [(r"R::num_coeffs\(\)", "rank_coeffs()", "the rank")]
ME = (r"\bself\b", "me", "the receiver, taken by value, as a mutable local")
RANKN = (r"R::n\(\)", "rank_n()", "the rank")
EVAL_CTX = COEFFS + OPS + EVALS + RANK_


PLANNED = """
/// every segment fits the rank
pub open spec fn fits(s: ConstraintSegment) -> bool { s.gate_start + s.num_gates <= rn() && s.constraint_start + s.num_constraints <= 4 * rn() }
pub open spec fn planned(fp: Seq<ConstraintSegment>) -> bool { forall|k: int| 0 <= k < fp.len() ==> #[trigger] fits(fp[k]) }
impl Evaluator {
    pub open spec fn seg(&self) -> ConstraintSegment { self.floor_plan[self.current_routine as int] }
    /// the state a segment's synthesis starts in
    pub open spec fn starts(&self) -> bool {
        self.inv() && planned(self.floor_plan@) && self.current_routine < self.floor_plan.len() && self.scope.available_d is None && self.scope.gates == self.seg().gate_start && self.scope.constraints == self.seg().constraint_start @FRESH@
    }
    pub open spec fn ends(&self, s: &Evaluator) -> bool { self.inv() && self.fixed(s) && s.current_routine <= self.current_routine < self.floor_plan.len() }
    /// the whole segment, and nothing but it, was synthesised
    pub open spec fn done(&self, s: &Evaluator) -> bool { self.ends(s) && self.scope.gates == s.seg().gate_start + s.seg().num_gates && self.scope.constraints == s.seg().constraint_start + s.seg().num_constraints }
    pub open spec fn with(self, c: Scope) -> Evaluator { Evaluator { scope: c, ..self } }
}
/// what the circuit code does between two states, operation by operation
pub uninterp spec fn ran(s: Evaluator, e: Evaluator) -> bool;
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T) ensures *final(d) == s, r == *old(d);
#[verifier::external_body] fn predict() -> (r: Result<(), Error>) { unimplemented!() }
#[verifier::external_body] fn execute(this: &mut Evaluator) -> (r: Result<(), Error>) requires old(this).starts() ensures r.is_ok() ==> ran(*old(this), *final(this)) && final(this).ends(old(this)) { unimplemented!() }
"""
BODY_SPEC = "requires old(this).starts() ensures r.is_ok() ==> ran(*old(this), *final(this)) && final(this).done(old(this)),"
SCOPE_SPEC = "requires old(self).with(init).starts() ensures final(self).scope == old(self).scope, r.is_ok() ==> exists|e: Evaluator| ran(old(self).with(init), e) && #[trigger] e.done(&old(self).with(init)) && *final(self) == e.with(old(self).scope),"


def closure(body):
    """The closure given to with_scope, with its parameter called `this` and the segment called `seg`."""
    h = re.search(r"self\.with_scope\(", body)
    g = re.search(r"let (\w+) = &self\.floor_plan\[", body)
    if not h or not g:
        raise Lost("routine: with_scope or the segment not found")
    args, _ = split_args(body, h.end() - 1)
    c = re.match(r"\|(\w+)\|\s*(.*)$", args[1], re.S)
    if not c:
        raise Lost("routine: closure not found")
    return re.sub(r"\b%s\b" % g[1], "seg", re.sub(r"\b%s\b" % c[1], "this", unbrace(c[2])))


def scoped(body):
    """with_scope(init, closure) becomes a call by contract; the closure has its own."""
    h = re.search(r"self\.with_scope\(", body)
    if not h:
        raise Lost("routine: with_scope not found")
    args, c = split_args(body, h.end() - 1)
    return body[:h.end()] + args[0] + body[c:]


PREDICT = (r"Emulator::predict\(&\w+, &\w+\)\?\s*\.into_aux\(\)", "predict()?", "prediction, which sees only values")
SEGMENT = (r"&self\.floor_plan\[", "self.floor_plan[", "segments are copied out of the plan")
ROUTINE = "requires old(self).inv(), planned(old(self).floor_plan@), old(self).current_routine + 1 < old(self).floor_plan.len() ensures r.is_ok() ==> exists|s: Evaluator, e: Evaluator| #[trigger] ran(s, e) && s.starts() && e.done(&s) && s == (Evaluator { current_routine: (old(self).current_routine + 1) as usize, ..*old(self) }).with(s.scope) && *final(self) == e.with(%s),"


def planned_(fixed, fresh=""):
    return PLANNED.replace("@FRESH@", fresh).replace("self.fixed(s)", fixed)


def routines(name, file, ctx, scope_name, pre):
    return [
        dict(name=f"{name}::routine body", fn="routine", file=file, cut=closure, title="a routine that does not fill its segment exactly is refused", sig="fn body(this: &mut Evaluator, seg: &ConstraintSegment) -> (r: Result<(), Error>)", context=ctx, transform=[ASSERTS],
             spec=BODY_SPEC.replace("requires ", "requires *seg == old(this).seg(), "), rewrite=[PREDICT, (r"\w+\.execute\(this, \w+, \w+\)", "execute(this)", "the routine's own synthesis")], pre="proof { rank(); assert(fits(this.floor_plan@[this.current_routine as int])); }"),
        dict(name=f"{name}::with_scope", fn="with_scope", within=r"trait DriverScope", file="crates/ragu_circuits/src/lib.rs", title="the caller's scope is back when the closure returns", sig="impl Evaluator { fn with_scope(&mut self, init: Scope) -> (r: Result<(), Error>)", suffix="}", spec=SCOPE_SPEC,
             context=ctx + "#[verifier::external_body] fn body(this: &mut Evaluator) -> (r: Result<(), Error>) %s { unimplemented!() }\n" % BODY_SPEC, rewrite=[(r"\*self\.scope\(\)", "self.scope", "the scope accessor"), (r"self\.scope\(\)", "(&mut self.scope)", "the scope accessor"), (r"\bf\(self\)", "body(self)", "the closure")], pre="proof { assert(Evaluator { scope: init, ..*self } == self.with(init)); }"),
        dict(name=f"{name}::routine", fn="routine", file=file, title="a routine runs from its own segment's starting state; the caller's state is untouched", sig="impl Evaluator { fn routine(&mut self) -> (r: Result<(), Error>)", suffix="}", transform=[(scoped, "with_scope by its contract")],
             context=ctx + "impl Evaluator { #[verifier::external_body] fn with_scope(&mut self, init: Scope) -> (r: Result<(), Error>) %s { unimplemented!() } }\n" % SCOPE_SPEC, rewrite=[SEGMENT, (scope_name, "Scope", "the scope's type")], spec=ROUTINE % "old(self).scope",
             names={"init": r"self\.with_scope\(\s*(\w+)"}, pre=pre),
    ]


START_X = """proof { rank(); let k = (self.current_routine + 1) as int; assert(fits(self.floor_plan@[k])); let g = self.floor_plan[k].gate_start as int;
    downs(self.x, self.x_inv, pa(0), g as nat); pow_add(self.x, pb(0), g as nat); downs(self.x, self.x_inv, pc(0), g as nat);
    assert((pa(0) - g) as nat == pa(g)); assert(pb(0) + g == pb(g)); assert((pc(0) - g) as nat == pc(g)); }"""


def sxy_routine(name, file, base):
    return [
        dict(name=f"{name}::routine", fn="routine", file=file, title="a routine runs from its own segment's starting state and fills it exactly; its Horner sum, shifted by the power of y of its first constraint, joins the caller's sum", sig="impl Evaluator { fn routine(&mut self) -> (r: Result<(), Error>)", suffix="}", transform=[ASSERTS],
             context=base + planned_("self.same_point(s)", "&& self.scope.result == fzero() && self.scope.sum == fzero()"), rewrite=[SEGMENT, (r"\bSxyScope\b", "Scope", "the scope's type"), PREDICT, (r"\w+\.execute\(self, \w+, \w+\)", "execute(self)", "the routine's own synthesis")], pre=START_X,
             spec=ROUTINE % "Scope { sum: fadd(old(self).scope.sum, fadd(fmul(fpow(old(self).y, s.seg().constraint_start as nat), e.scope.result), e.scope.sum)), ..old(self).scope }"),
    ]


def evaluators(name, file, sxy):
    base = EVAL_CTX + EVAL(sxy)
    own = "impl Evaluator {\n"
    adv = own + f"#[verifier::external_body] fn advance_gate(&mut self) -> (r: Result<(F, F, F), Error>) {ABC} {{ unimplemented!() }}\n}}\n"
    gate = own + f"#[verifier::external_body] fn gate(&mut self) -> (r: Result<(WireEval, WireEval, WireEval, WireEval), Error>) {GATE} {{ unimplemented!() }}\n}}\n"
    if sxy:
        enf = "final(self).scope.result == fadd(fmul(old(self).scope.result, old(self).y), meaning(lc@, evs(old(self).one)).0) && final(self).scope.sum == old(self).scope.sum"
        needs = ""
    else:
        enf = "final(self).result@ == old(self).result@.update(old(self).scope.constraints as int, meaning(lc@, evs(old(self).one)).0)"
        needs = ", old(self).result.len() == 4 * rn()"
    return [
        dict(name=f"{name}::advance_gate", fn="advance_gate", file=file, title="the monomials of the next gate, for every gate of every rank", sig="impl Evaluator { fn advance_gate(&mut self) -> (r: Result<(F, F, F), Error>)", suffix="}", context=base, spec=ABC, rewrite=[RANKN],
             pre="proof { rank(); let i = self.scope.gates as int; if i < rn() { down(self.x, self.x_inv, pa(i)); up(self.x, pb(i)); down(self.x, self.x_inv, pc(i)); assert(pa(i + 1) == (pa(i) - 1) as nat); assert(pc(i + 1) == (pc(i) - 1) as nat); assert(pb(i + 1) == pb(i) + 1); } }"),
        dict(name=f"{name}::gate", fn="gate", file=file, title="a, b, c and d of a gate", sig="impl Evaluator { fn gate(&mut self) -> (r: Result<(WireEval, WireEval, WireEval, WireEval), Error>)", suffix="}", context=base + adv, spec=GATE,
             pre="proof { rank(); downs(self.x, self.x_inv, pb(self.scope.gates as int), 2 * rn()); assert((pb(self.scope.gates as int) - 2 * rn()) as nat == pd(self.scope.gates as int)); }"),
        dict(name=f"{name}::mul", fn="mul", file=file, title="a, b and c of a gate", sig="impl Evaluator { fn mul(&mut self) -> (r: Result<(WireEval, WireEval, WireEval), Error>)", suffix="}", context=base + adv, spec=MUL),
        dict(name=f"{name}::alloc", fn="alloc", file=file, title="the d wire of the last paired gate, or the b wire of a new one", sig="impl Evaluator { fn alloc(&mut self) -> (r: Result<WireEval, Error>)", suffix="}", context=base + gate, spec=ALLOC,
             rewrite=[(r"self\.gate\(\|\| unreachable!\(\)\)", "self.gate()", "the witness closure, which is never called")]),
        dict(name=f"{name}::add", fn="add", file=file, title="the value of the combination", sig="impl Evaluator { fn add(&mut self, lc: &Vec<Op<WireEval>>) -> (r: WireEval)", suffix="}", context=base + SUMS,
             spec="ensures *final(self) == *old(self), r == WireEval::Value(meaning(lc@, evs(old(self).one)).0),", rewrite=[(r"\blc\(", "apply(lc, ", "running the combination")]),
        dict(name=f"{name}::enforce_zero", fn="enforce_zero", file=file, title="one Horner step of y with the value of the combination" if sxy else "the value of the combination at the constraint's own place", sig="impl Evaluator { fn enforce_zero(&mut self, lc: &Vec<Op<WireEval>>) -> (r: Result<(), Error>)", suffix="}", context=base + SUMS,
             spec=f"""requires old(self).inv(){needs} ensures final(self).inv(), final(self).same_point(old(self)), final(self).scope.gates == old(self).scope.gates, final(self).scope.available_d == old(self).scope.available_d, final(self).current_routine == old(self).current_routine,
                r.is_ok() == (old(self).scope.constraints < 4 * rn() - 1), r.is_err() ==> *final(self) == *old(self), r.is_ok() ==> final(self).scope.constraints == old(self).scope.constraints + 1 && {enf},""",
             rewrite=NARROW + [(r"\blc\(", "apply(lc, ", "running the combination")], pre="proof { rank(); }"),
    ] + (sxy_routine(name, file, base) if sxy else routines(name, file, base + planned_("self.same_point(s)"), r"\bSxScope\b", START_X))



SYS = """
impl VirtualTable {
    pub open spec fn dead(&self, i: int) -> bool { self.wires[i].refcount == 0 ==> self.wires[i].terms.len() == 0 && self.wires[i].value.v() == fzero() }
    /// the free list holds exactly the resolved wires, once each, and these are clear
    pub open spec fn tidy(&self) -> bool {
        (forall|i: int| #[trigger] times_in(self.free@, i) == (if 0 <= i < self.wires.len() && self.wires[i].refcount == 0 { 1int } else { 0 })) && forall|i: int| 0 <= i < self.wires.len() ==> #[trigger] self.dead(i)
    }
    /// someone holds the wire
    pub open spec fn live(&self, w: WireIndex) -> bool { self.has(w) && match w { WireIndex::Virtual(i) => self.held(i as int) >= 1, _ => true } }
    pub open spec fn rows(&self, o: &VirtualTable) -> bool { self.a@ == o.a@ && self.b@ == o.b@ && self.c@ == o.c@ && self.d@ == o.d@ }
}
pub proof fn times_pos(s: Seq<usize>, i: int) ensures times_in(s, i) >= 0 decreases s.len() { if s.len() > 0 { times_pos(s.drop_last(), i); } }
pub proof fn times_has(s: Seq<usize>, k: int) requires 0 <= k < s.len() ensures times_in(s, s[k] as int) >= 1 decreases s.len() { if k == s.len() - 1 { times_pos(s.drop_last(), s[k] as int); } else { times_has(s.drop_last(), k); } }
/// giving up references keeps the table tidy
pub proof fn still_tidy(s: VirtualTable, t: VirtualTable) requires s.tidy(), t.shape(&s), forall|i: int| 0 <= i < s.wires.len() ==> #[trigger] t.later(&s, i), forall|i: int| i < 0 || i >= s.wires.len() ==> #[trigger] times_in(t.free@, i) == times_in(s.free@, i) ensures t.tidy() {
    assert forall|i: int| #[trigger] times_in(t.free@, i) == (if 0 <= i < t.wires.len() && t.wires[i].refcount == 0 { 1int } else { 0 }) by { if 0 <= i < s.wires.len() { assert(t.later(&s, i)); assert(times_in(s.free@, i) == (if s.wires[i].refcount == 0 { 1int } else { 0 })); } else { assert(times_in(s.free@, i) == 0); } }
    assert forall|i: int| 0 <= i < t.wires.len() implies #[trigger] t.dead(i) by { assert(t.later(&s, i)); assert(s.dead(i)); }
}
pub open spec fn all_times(s: Seq<usize>, n: nat) -> int decreases n { if n == 0 { 0 } else { all_times(s, (n - 1) as nat) + times_in(s, n - 1) } }
pub proof fn all_last(s: Seq<usize>, n: nat) requires s.len() > 0 ensures all_times(s, n) == all_times(s.drop_last(), n) + (if s.last() < n { 1int } else { 0 }) decreases n { if n > 0 { all_last(s, (n - 1) as nat); } }
pub proof fn all_len(s: Seq<usize>, n: nat) requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < n ensures all_times(s, n) == s.len() decreases s.len() {
    if s.len() == 0 { all_none(s, n); } else { all_last(s, n); assert(s.last() < n) by { assert(s[s.len() - 1] < n); } assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k]) < n by { assert(s[k] < n); } all_len(s.drop_last(), n); }
}
pub proof fn all_none(s: Seq<usize>, n: nat) requires s.len() == 0 ensures all_times(s, n) == 0 decreases n { if n > 0 { all_none(s, (n - 1) as nat); } }
pub proof fn all_ones(s: Seq<usize>, n: nat) requires forall|i: int| #[trigger] times_in(s, i) <= 1 ensures all_times(s, n) <= n, all_times(s, n) == n ==> forall|i: int| 0 <= i < n ==> #[trigger] times_in(s, i) == 1 decreases n {
    if n > 0 { all_ones(s, (n - 1) as nat); assert(times_in(s, n - 1) <= 1); }
}
pub proof fn row_none(s: Seq<F>, g: spec_fn(int) -> F) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == fzero() ensures row(s, g) == fzero() decreases s.len() { if s.len() > 0 { row_none(s.drop_last(), g); zmul(g(s.len() - 1)); add_zero(fzero()); } }
/// C08: when every virtual wire has been freed, all that was accumulated is in the coefficient rows
pub proof fn all_resolved(t: VirtualTable, den: Den) requires t.tidy(), t.free.len() == t.wires.len()
    ensures t.total(den) == fadd(fadd(row(t.a@, |i: int| den(WireIndex::A(i as usize))), row(t.b@, |i: int| den(WireIndex::B(i as usize)))), fadd(row(t.c@, |i: int| den(WireIndex::C(i as usize))), row(t.d@, |i: int| den(WireIndex::D(i as usize)))))
{
    let n = t.wires.len() as nat; let s = t.free@;
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]) < n by { times_has(s, k); assert(times_in(s, s[k] as int) >= 1); }
    all_len(s, n); all_ones(s, n);
    let vs = values(t.wires@);
    assert forall|i: int| 0 <= i < vs.len() implies #[trigger] vs[i] == fzero() by { assert(times_in(s, i) == 1); assert(t.wires[i].refcount == 0); assert(t.dead(i)); }
    row_none(vs, |i: int| den(WireIndex::Virtual(i as usize)));
    add_zero(fadd(fadd(row(t.a@, |i: int| den(WireIndex::A(i as usize))), row(t.b@, |i: int| den(WireIndex::B(i as usize)))), fadd(row(t.c@, |i: int| den(WireIndex::C(i as usize))), row(t.d@, |i: int| den(WireIndex::D(i as usize))))));
}
pub proof fn row_agree(s: Seq<F>, g: spec_fn(int) -> F, h: spec_fn(int) -> F) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == fzero() || g(i) == h(i) ensures row(s, g) == row(s, h) decreases s.len() {
    if s.len() > 0 { row_agree(s.drop_last(), g, h); let n = s.len() - 1; assert(s[n] == fzero() || g(n) == h(n)); zmul(g(n)); zmul(h(n)); }
}
pub proof fn lc_agree(s: Seq<Term>, den: Den, dem: Den, i: int) requires count(s, i) == 0, 0 <= i <= usize::MAX, forall|w: WireIndex| w != WireIndex::Virtual(i as usize) ==> #[trigger] den(w) == dem(w) ensures comb(s, den) == comb(s, dem) decreases s.len() {
    if s.len() > 0 { count_pos(s.drop_last(), i); lc_agree(s.drop_last(), den, dem, i); }
}
pub proof fn count_none(s: Seq<Term>, i: int) requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 != WireIndex::Virtual(i as usize) || i < 0 || i > usize::MAX ensures count(s, i) == 0 decreases s.len() {
    if s.len() > 0 { assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k]).0 != WireIndex::Virtual(i as usize) || i < 0 || i > usize::MAX by { assert(s[k].0 != WireIndex::Virtual(i as usize) || i < 0 || i > usize::MAX); } count_none(s.drop_last(), i); assert(s[s.len() - 1].0 != WireIndex::Virtual(i as usize) || i < 0 || i > usize::MAX); }
}
pub proof fn occ_none(ws: Seq<VirtualWire>, i: int) requires forall|k: int| 0 <= k < ws.len() ==> count((#[trigger] ws[k]).terms@, i) == 0 ensures occ(ws, i) == 0 decreases ws.len() { if ws.len() > 0 { assert(count(ws[ws.len() - 1].terms@, i) == 0); assert forall|k: int| 0 <= k < ws.drop_last().len() implies count((#[trigger] ws.drop_last()[k]).terms@, i) == 0 by { assert(count(ws[k].terms@, i) == 0); } occ_none(ws.drop_last(), i); } }
pub struct Table {}
pub struct Wire { pub index: WireIndex, pub table: Option<Table> }
pub open spec fn under(den: Den) -> spec_fn(Wire) -> F { |w: Wire| den(w.index) }
/// t is s with one more reference to w
pub open spec fn referenced(s: VirtualTable, t: VirtualTable, w: WireIndex) -> bool {
    t.shape(&s) && t.rows(&s) && t.free@ == s.free@ && forall|i: int| 0 <= i < s.wires.len() ==> (#[trigger] t.wires[i]).terms@ == s.wires[i].terms@ && t.wires[i].value == s.wires[i].value && t.wires[i].refcount == s.wires[i].refcount + hit(w, i)
}
/// one more reference to a live wire keeps everything but the number of references held
pub proof fn referenced_keeps(s: VirtualTable, t: VirtualTable, w: WireIndex) requires s.sound(), s.tidy(), s.live(w), referenced(s, t, w)
    ensures t.sound(), t.tidy(), forall|i: int| 0 <= i < s.wires.len() ==> #[trigger] t.held(i) == s.held(i) + hit(w, i), forall|den: Den| s.reads(den) ==> #[trigger] t.reads(den), forall|den: Den| #[trigger] t.total(den) == s.total(den)
{
    assert forall|i: int| 0 <= i < s.wires.len() implies #[trigger] t.held(i) == s.held(i) + hit(w, i) by { occ_same(s.wires@, t.wires@, i); }
    assert forall|k: int| 0 <= k < t.wires.len() implies #[trigger] t.listed(k) by { assert(s.listed(k)); }
    assert forall|i: int| 0 <= i < s.wires.len() implies (#[trigger] t.wires[i]).refcount > 0 <==> s.wires[i].refcount > 0 by { occ_pos(s.wires@, i); assert(s.held(i) >= 0); }
    assert forall|i: int| 0 <= i < t.wires.len() implies #[trigger] t.dead(i) by { assert(s.dead(i)); assert(t.wires[i].refcount > 0 <==> s.wires[i].refcount > 0); }
    assert forall|i: int| #[trigger] times_in(t.free@, i) == (if 0 <= i < t.wires.len() && t.wires[i].refcount == 0 { 1int } else { 0 }) by { assert(times_in(s.free@, i) == (if 0 <= i < s.wires.len() && s.wires[i].refcount == 0 { 1int } else { 0 })); }
    assert(values(t.wires@) =~= values(s.wires@));
    assert forall|den: Den| s.reads(den) implies #[trigger] t.reads(den) by { }
}
pub proof fn meaning_agree(s: Seq<Op<Wire>>, den: Den, i: usize, v: F) requires forall|k: int| 0 <= k < s.len() ==> match #[trigger] s[k] { Op::Term(w, c) => w.index != WireIndex::Virtual(i), _ => true } ensures meaning(s, under(with(den, i, v))) == meaning(s, under(den)) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert forall|k: int| 0 <= k < t.len() implies match #[trigger] t[k] { Op::Term(w, c) => w.index != WireIndex::Virtual(i), _ => true } by { assert(s[k] == t[k]); } meaning_agree(t, den, i, v); match s[s.len() - 1] { Op::Term(w, c) => { assert(under(with(den, i, v))(w) == den(w.index)); }, _ => {} } }
}
pub open spec fn with(den: Den, i: usize, v: F) -> Den { |w: WireIndex| if w == WireIndex::Virtual(i) { v } else { den(w) } }
pub struct TermCollector { pub terms: Vec<Term>, pub gain: Coeff }
pub struct TermEnforcer(pub Table, pub Coeff);
/// t is s after values were added to its wires
pub open spec fn credited(s: VirtualTable, t: VirtualTable) -> bool { t.shape(&s) && t.free@ == s.free@ && forall|i: int| 0 <= i < s.wires.len() ==> (#[trigger] t.wires[i]).refcount == s.wires[i].refcount && t.wires[i].terms@ == s.wires[i].terms@ && (s.wires[i].refcount == 0 ==> t.wires[i].value == s.wires[i].value) }
pub proof fn credited_keeps(s: VirtualTable, t: VirtualTable) requires s.sound(), s.tidy(), credited(s, t) ensures t.sound(), t.tidy(), forall|i: int| 0 <= i < s.wires.len() ==> #[trigger] t.held(i) == s.held(i), forall|den: Den| s.reads(den) ==> #[trigger] t.reads(den) {
    assert forall|i: int| 0 <= i < s.wires.len() implies #[trigger] t.held(i) == s.held(i) by { occ_same(s.wires@, t.wires@, i); }
    assert forall|k: int| 0 <= k < t.wires.len() implies #[trigger] t.listed(k) by { assert(s.listed(k)); }
    assert forall|i: int| 0 <= i < t.wires.len() implies #[trigger] t.dead(i) by { assert(s.dead(i)); }
    assert forall|i: int| #[trigger] times_in(t.free@, i) == (if 0 <= i < t.wires.len() && t.wires[i].refcount == 0 { 1int } else { 0 }) by { assert(times_in(s.free@, i) == (if 0 <= i < s.wires.len() && s.wires[i].refcount == 0 { 1int } else { 0 })); }
    assert forall|den: Den| s.reads(den) implies #[trigger] t.reads(den) by { }
}
"""
T_FREE = "impl VirtualTable {\n#[verifier::external_body] fn free(&mut self, index: WireIndex) %s { unimplemented!() }\n}\n" % FREE_SPEC
T_ALLOC_SPEC = """requires old(self).sound(), old(self).tidy()
    ensures final(self).sound(), final(self).tidy(), final(self).rows(old(self)), r is Virtual, ({ let i = r->Virtual_0 as int; &&& i <= old(self).wires.len() && i < final(self).wires.len() && final(self).wires.len() == (if i == old(self).wires.len() { i + 1 } else { old(self).wires.len() as int })
        &&& i < old(self).wires.len() ==> old(self).wires[i].refcount == 0
        &&& final(self).wires[i].refcount == 1 && final(self).wires[i].terms.len() == 0 && final(self).wires[i].value.v() == fzero() && final(self).held(i) == 1
        &&& forall|j: int| 0 <= j < old(self).wires.len() && j != i ==> #[trigger] final(self).wires[j] == old(self).wires[j]
        &&& forall|j: int| 0 <= j < old(self).wires.len() && j != i ==> #[trigger] final(self).held(j) == old(self).held(j) }),
        forall|den: Den| #[trigger] final(self).total(den) == old(self).total(den),"""
T_ALLOC = "impl VirtualTable {\n#[verifier::external_body] fn alloc(&mut self) -> (r: WireIndex) %s { unimplemented!() }\n}\n" % T_ALLOC_SPEC
UPDATE_SPEC = """requires index is Virtual, old(self).has(index)
    ensures final(self).rows(old(self)), final(self).free@ == old(self).free@, final(self).wires.len() == old(self).wires.len(), ({ let i = index->Virtual_0 as int; final(self).wires[i].terms@ == terms@ && final(self).wires[i].refcount == old(self).wires[i].refcount && final(self).wires[i].value == old(self).wires[i].value
        && forall|j: int| 0 <= j < old(self).wires.len() && j != i ==> #[trigger] final(self).wires[j] == old(self).wires[j] }),"""
T_UPDATE = "impl VirtualTable {\n#[verifier::external_body] fn update(&mut self, index: WireIndex, terms: Vec<Term>) %s { unimplemented!() }\n}\n" % UPDATE_SPEC
SYT = COEFFS + TABLE + OPS + RANK_ + SYS
MORE = "old(table).has(wire.index), match wire.index { WireIndex::Virtual(i) => old(table).wires[i as int].refcount < usize::MAX && wire.table.is_some(), _ => true }"
INCREMENT = "requires %s ensures referenced(*old(table), *final(table), wire.index)," % MORE
W_INC = "impl Wire {\n#[verifier::external_body] fn increment_refcount(&self, table: &mut VirtualTable) %s { unimplemented!() }\n}\n" % INCREMENT.replace("wire.", "self.")
COLLECT = "requires %s ensures referenced(*old(table), *final(table), wire.index), r.terms.len() == self.terms.len() + 1, r.terms@.drop_last() == self.terms@, r.terms@.last().0 == wire.index, r.terms@.last().1.v() == fmul(coeff.v(), self.gain.v()), r.gain == self.gain," % MORE
ENFORCE = """requires old(table).has(wire.index)
    ensures r.1 == self.1, final(table).shape(old(table)), final(table).free@ == old(table).free@,
        forall|i: int| 0 <= i < old(table).wires.len() ==> (#[trigger] final(table).wires[i]).refcount == old(table).wires[i].refcount && final(table).wires[i].terms@ == old(table).wires[i].terms@ && (wire.index != WireIndex::Virtual(i as usize) ==> final(table).wires[i] == old(table).wires[i]),
        forall|den: Den| #[trigger] final(table).total(den) == fadd(old(table).total(den), fmul(fmul(coeff.v(), self.1.v()), den(wire.index))),"""
GLUE = """impl TermCollector {
    #[verifier::external_body] fn new() -> (r: TermCollector) ensures r.terms.len() == 0, r.gain.v() == fone() { unimplemented!() }
    #[verifier::external_body] fn add_term(self, table: &mut VirtualTable, wire: &Wire, coeff: Coeff) -> (r: TermCollector) %s { unimplemented!() }
    #[verifier::external_body] fn gain_(self, coeff: Coeff) -> (r: TermCollector) ensures r.terms@ == self.terms@, r.gain.v() == fmul(self.gain.v(), coeff.v()) { unimplemented!() }
}
impl TermEnforcer {
    #[verifier::external_body] fn add_term(self, table: &mut VirtualTable, wire: &Wire, coeff: Coeff) -> (r: TermEnforcer) %s { unimplemented!() }
    #[verifier::external_body] fn gain_(self, coeff: Coeff) -> (r: TermEnforcer) ensures r.1.v() == fmul(self.1.v(), coeff.v()) { unimplemented!() }
}
pub open spec fn usable(lc: Seq<Op<Wire>>, t: VirtualTable) -> bool { forall|k: int| 0 <= k < lc.len() ==> match #[trigger] lc[k] { Op::Term(w, c) => t.live(w.index) && (w.index is Virtual ==> w.table.is_some()), _ => true } }
pub open spec fn room(t: VirtualTable, n: int) -> bool { forall|i: int| 0 <= i < t.wires.len() ==> (#[trigger] t.wires[i]).refcount + n <= usize::MAX }
/// collecting a linear combination: proved from the contracts of its operations
fn collect(lc: &Vec<Op<Wire>>, table: &mut VirtualTable, c0: TermCollector) -> (r: TermCollector)
    requires old(table).sound(), old(table).tidy(), usable(lc@, *old(table)), room(*old(table), lc.len() as int), c0.terms.len() == 0, c0.gain.v() == fone()
    ensures final(table).sound(), final(table).tidy(), final(table).shape(old(table)), final(table).rows(old(table)), final(table).free@ == old(table).free@,
        forall|i: int| 0 <= i < old(table).wires.len() ==> (#[trigger] final(table).wires[i]).terms@ == old(table).wires[i].terms@ && final(table).wires[i].value == old(table).wires[i].value && final(table).wires[i].refcount == old(table).wires[i].refcount + count(r.terms@, i) && (old(table).wires[i].refcount == 0 ==> final(table).wires[i].refcount == 0),
        forall|i: int| 0 <= i < old(table).wires.len() ==> #[trigger] final(table).held(i) == old(table).held(i) + count(r.terms@, i),
        forall|k: int| 0 <= k < r.terms.len() ==> old(table).live((#[trigger] r.terms[k]).0),
        forall|den: Den| #[trigger] under(den) == under(den) ==> lang(r.terms@, lc@, den),
        forall|den: Den| #[trigger] comb(r.terms@, den) == meaning(lc@, under(den)).0,
{
    let mut c = c0; let mut k = 0; let ghost t0 = *table;
    proof { assert(lc@.take(0) =~= Seq::empty()); assert(c.terms@ =~= Seq::empty()); }
    while k < lc.len()
        invariant 0 <= k <= lc.len(), usable(lc@, t0), room(t0, lc.len() as int), t0.sound(), t0.tidy(), t0 == *old(table), c.terms.len() <= k, table.sound(), table.tidy(), table.shape(&t0), table.rows(&t0), table.free@ == t0.free@,
            forall|i: int| 0 <= i < t0.wires.len() ==> (#[trigger] table.wires[i]).terms@ == t0.wires[i].terms@ && table.wires[i].value == t0.wires[i].value && table.wires[i].refcount == t0.wires[i].refcount + count(c.terms@, i) && t0.wires[i].refcount <= table.wires[i].refcount <= t0.wires[i].refcount + k && (t0.wires[i].refcount == 0 ==> table.wires[i].refcount == 0),
            forall|i: int| 0 <= i < t0.wires.len() ==> #[trigger] table.held(i) == t0.held(i) + count(c.terms@, i),
            forall|j: int| 0 <= j < c.terms.len() ==> t0.live((#[trigger] c.terms[j]).0),
            forall|den: Den| #[trigger] comb(c.terms@, den) == meaning(lc@.take(k as int), under(den)).0, forall|den: Den| #[trigger] meaning(lc@.take(k as int), under(den)).1 == c.gain.v(),
        decreases lc.len() - k
    {
        let ghost s = *table; let ghost cs = c;
        proof {
            assert forall|den: Den| #[trigger] under(den) == under(den) implies meaning(lc@.take(k + 1), under(den)) == ({ let p = meaning(lc@.take(k as int), under(den)); match lc@[k as int] { Op::Term(w, c) => (fadd(p.0, fmul(under(den)(w), fmul(c.v(), p.1))), p.1), Op::Gain(c) => (p.0, fmul(p.1, c.v())) } }) by { step(lc@, under(den), k as int); }
            match lc@[k as int] { Op::Term(w, c) => { match w.index { WireIndex::Virtual(i) => { occ_pos(t0.wires@, i as int); count_pos(cs.terms@, i as int); assert(t0.held(i as int) >= 1); assert(s.held(i as int) >= 1); assert(s.wires[i as int].refcount <= t0.wires[i as int].refcount + k); }, _ => {} } assert(s.live(w.index)); }, _ => {} }
        }
        match &lc[k] { Op::Term(w, x) => {
            c = c.add_term(table, w, *x);
            proof {
                referenced_keeps(s, *table, w.index);
                assert forall|den: Den| #[trigger] comb(c.terms@, den) == meaning(lc@.take(k + 1), under(den)).0 by { assert(comb(cs.terms@, den) == meaning(lc@.take(k as int), under(den)).0); assert(meaning(lc@.take(k as int), under(den)).1 == cs.gain.v()); assert(under(den) == under(den)); mul_comm(c.terms@.last().1.v(), den(w.index)); }
                assert forall|j: int| 0 <= j < c.terms.len() implies t0.live((#[trigger] c.terms[j]).0) by { if j < cs.terms.len() { assert(c.terms@.drop_last()[j] == cs.terms[j]); } }
                assert forall|i: int| 0 <= i < t0.wires.len() implies #[trigger] count(c.terms@, i) == count(cs.terms@, i) + hit(w.index, i) by { }
                assert forall|i: int| 0 <= i < t0.wires.len() implies (#[trigger] table.wires[i]).terms@ == t0.wires[i].terms@ && table.wires[i].value == t0.wires[i].value && table.wires[i].refcount == t0.wires[i].refcount + count(c.terms@, i) && t0.wires[i].refcount <= table.wires[i].refcount <= t0.wires[i].refcount + k + 1 && (t0.wires[i].refcount == 0 ==> table.wires[i].refcount == 0) by { assert(s.wires[i].terms@ == t0.wires[i].terms@); if hit(w.index, i) == 1 { occ_pos(t0.wires@, i); assert(t0.held(i) >= 1); } }
                assert forall|i: int| 0 <= i < t0.wires.len() implies #[trigger] table.held(i) == t0.held(i) + count(c.terms@, i) by { assert(s.held(i) == t0.held(i) + count(cs.terms@, i)); }
            }
        }, Op::Gain(x) => { c = c.gain_(*x); } }
        proof { assert forall|den: Den| #[trigger] meaning(lc@.take(k + 1), under(den)).1 == c.gain.v() by { assert(under(den) == under(den)); assert(meaning(lc@.take(k as int), under(den)).1 == cs.gain.v()); }
            assert forall|den: Den| #[trigger] comb(c.terms@, den) == meaning(lc@.take(k + 1), under(den)).0 by { assert(under(den) == under(den)); assert(comb(cs.terms@, den) == meaning(lc@.take(k as int), under(den)).0); }
        }
        k += 1;
    }
    proof { assert(lc@.take(lc.len() as int) =~= lc@); }
    c
}
/// enforcing a linear combination: proved from the contracts of its operations
fn enforce(lc: &Vec<Op<Wire>>, table: &mut VirtualTable, e0: TermEnforcer) -> (r: TermEnforcer)
    requires old(table).sound(), old(table).tidy(), usable(lc@, *old(table))
    ensures credited(*old(table), *final(table)), final(table).sound(), final(table).tidy(), forall|den: Den| #[trigger] final(table).total(den) == fadd(old(table).total(den), fmul(e0.1.v(), meaning(lc@, under(den)).0)),
{
    let mut e = e0; let mut k = 0; let ghost t0 = *table; let ghost y = e0.1.v();
    proof { assert(lc@.take(0) =~= Seq::empty()); mul_zero(y); mul_one(y); credited_keeps(t0, t0); assert forall|den: Den| #[trigger] table.total(den) == fadd(t0.total(den), fmul(y, meaning(lc@.take(0), under(den)).0)) by { add_zero(t0.total(den)); } }
    while k < lc.len()
        invariant 0 <= k <= lc.len(), usable(lc@, t0), t0.sound(), t0.tidy(), t0 == *old(table), credited(t0, *table), y == e0.1.v(),
            forall|den: Den| #[trigger] table.total(den) == fadd(t0.total(den), fmul(y, meaning(lc@.take(k as int), under(den)).0)), forall|den: Den| fmul(y, #[trigger] meaning(lc@.take(k as int), under(den)).1) == e.1.v(),
        decreases lc.len() - k
    {
        let ghost s = *table; let ghost es = e;
        proof {
            assert forall|den: Den| #[trigger] under(den) == under(den) implies meaning(lc@.take(k + 1), under(den)) == ({ let p = meaning(lc@.take(k as int), under(den)); match lc@[k as int] { Op::Term(w, c) => (fadd(p.0, fmul(under(den)(w), fmul(c.v(), p.1))), p.1), Op::Gain(c) => (p.0, fmul(p.1, c.v())) } }) by { step(lc@, under(den), k as int); }
            match lc@[k as int] { Op::Term(w, c) => { assert(s.has(w.index)); match w.index { WireIndex::Virtual(i) => { occ_pos(t0.wires@, i as int); assert(t0.held(i as int) >= 1); }, _ => {} } }, _ => {} }
        }
        match &lc[k] { Op::Term(w, x) => {
            e = e.add_term(table, w, *x);
            proof {
                assert forall|i: int| 0 <= i < t0.wires.len() implies (#[trigger] table.wires[i]).refcount == t0.wires[i].refcount && table.wires[i].terms@ == t0.wires[i].terms@ && (t0.wires[i].refcount == 0 ==> table.wires[i].value == t0.wires[i].value) by { assert(s.wires[i].refcount == t0.wires[i].refcount); }
                assert forall|den: Den| #[trigger] table.total(den) == fadd(t0.total(den), fmul(y, meaning(lc@.take(k + 1), under(den)).0)) by {
                    let p = meaning(lc@.take(k as int), under(den)); let d = den(w.index); let c = x.v();
                    assert(under(den) == under(den)); assert(s.total(den) == fadd(t0.total(den), fmul(y, p.0))); assert(fmul(y, p.1) == es.1.v());
                    // (c (y g)) d = y (d (c g))
                    let g = p.1; mul_assoc(c, y, g); mul_comm(c, y); mul_assoc(y, c, g); mul_assoc(y, fmul(c, g), d); mul_comm(fmul(c, g), d);
                    let z = fmul(y, fmul(d, fmul(c, g)));
                    add_assoc(t0.total(den), fmul(y, p.0), z); distr(y, p.0, fmul(d, fmul(c, g)));
                }
            }
        }, Op::Gain(x) => { e = e.gain_(*x);
            proof { assert forall|den: Den| #[trigger] table.total(den) == fadd(t0.total(den), fmul(y, meaning(lc@.take(k + 1), under(den)).0)) by { assert(under(den) == under(den)); assert(s.total(den) == fadd(t0.total(den), fmul(y, meaning(lc@.take(k as int), under(den)).0))); } }
        } }
        proof { assert forall|den: Den| fmul(y, #[trigger] meaning(lc@.take(k + 1), under(den)).1) == e.1.v() by { assert(under(den) == under(den)); let g = meaning(lc@.take(k as int), under(den)).1; assert(fmul(y, g) == es.1.v()); match lc@[k as int] { Op::Gain(c) => { mul_assoc(y, g, c.v()); }, _ => {} } } }
        k += 1;
    }
    proof { assert(lc@.take(lc.len() as int) =~= lc@); credited_keeps(t0, *table); }
    e
}
""" % (COLLECT, ENFORCE)
GLUE = GLUE.replace("        forall|den: Den| #[trigger] under(den) == under(den) ==> lang(r.terms@, lc@, den),\n", "")
DRIVER = """
pub struct Scope { pub available_d: Option<Wire>, pub current_y: F, pub gates: usize, pub constraints: usize }
pub struct Evaluator { pub scope: Scope, pub y: F, pub y_inv: F, pub virtual_table: VirtualTable, pub floor_plan: Vec<ConstraintSegment>, pub current_routine: usize }
impl Evaluator {
    pub open spec fn same(&self, o: &Evaluator) -> bool { self.y == o.y && self.y_inv == o.y_inv && self.floor_plan == o.floor_plan && self.current_routine == o.current_routine }
    pub open spec fn inv(&self) -> bool { fmul(self.y, self.y_inv) == fone() && self.virtual_table.sound() && self.virtual_table.tidy() && self.scope.gates <= rn() }
}
impl Wire { #[verifier::external_body] fn new(index: WireIndex, table: Table) -> (r: Wire) ensures r.index == index, r.table.is_some() { unimplemented!() } }
"""
BORROW = (r"self\.table(?:\.as_ref\(\))?\.unwrap\(\)\.borrow_mut\(\)", "table", "the RefCell: the one table is a parameter")


FUNCTIONS = [
    dict(name="VirtualTable::add", fn="add", within=r"VirtualTable<'_, F, R>", file=SY, title="the total grows by value times what the wire stands for", sig="impl VirtualTable { fn add(&mut self, index: WireIndex, value: Coeff)", suffix="}", context=COEFFS + TABLE,
         spec=ADD_SPEC,
         pre="""proof {
            let s = *self;
            match index { WireIndex::Virtual(i) => { cadd_v(s.wires[i as int].value, value); }, _ => {} }
            assert forall|t: VirtualTable, den: Den| bumped(s, t, index, value.v()) implies #[trigger] t.total(den) == fadd(s.total(den), fmul(value.v(), den(index))) by { bump(s, t, index, value.v(), den); }
         }"""),
    dict(name="VirtualTable::free", fn="free", within=r"VirtualTable<'_, F, R>", file=SY, title="giving up a reference changes no total; a wire given up for the last time is resolved into its terms, cleared and listed as free", sig="impl VirtualTable { fn free(&mut self, index: WireIndex)", suffix="}", context=COEFFS + TABLE + T_ADD % ADD_SPEC,
         spec=FREE_SPEC + " decreases refs(old(self).wires@),", transform=[ASSERTS], rewrite=[(r"(\w+)\.drain\(\.\.\)", r"\1", "draining a local vector is consuming it")], rlimit=200,
         names={"i": r"WireIndex::Virtual\((\w+)\) = index", "ts": r"let mut (\w+) = vec!\[\]", "v": r"let (\w+) = self\.wires"},
         pre="let ghost s0 = *self; let ghost w0 = index; let ghost mut s3 = *self; let ghost mut resolved = false; let ghost mut vv = fzero();",
         loops=[dict(before="""let ghost s1 = *self; let ghost ts = $ts@; let ghost ix = $i as int;
                     proof {
                        assert(ts == s0.wires[ix].terms@);
                        occ_has(s0.wires@, ix, ix); count_pos(ts, ix);
                        assert forall|i: int| 0 <= i < s0.wires.len() implies #[trigger] s1.held(i) == s0.held(i) - hit(w0, i) + count(ts, i) by { occ_change(s0.wires@, s1.wires@, ix, i); count_pos(ts, i); }
                        assert forall|i: int| 0 <= i < s0.wires.len() implies #[trigger] s1.held(i) >= 0 by { count_pos(ts, i); assert(s0.held(i) >= hit(w0, i)); }
                        occ_pos(s1.wires@, ix); occ_change(s0.wires@, s1.wires@, ix, ix);
                        assert(count(ts, ix) == 0);
                        assert forall|k: int| 0 <= k < s1.wires.len() implies #[trigger] s1.listed(k) by { assert(s0.listed(k)); }
                        assert(s0.listed(ix));
                        refs_change(s0.wires@, s1.wires@, ix);
                        assert(ts.skip(0) =~= ts); assert(ts.take(0) =~= Seq::empty());
                        assert(values(s1.wires@) =~= values(s0.wires@));
                        assert forall|den: Den| #[trigger] s1.total(den) == s0.total(den) by {}
                        assert forall|den: Den| #[trigger] s1.total(den) == fadd(s0.total(den), fmul($v.v(), comb(ts.take(0), den))) by { mul_zero($v.v()); add_zero(s0.total(den)); }
                     }""",
                     inv="""invariant it0.seq() == ts, s0 == *old(self), s0.held(ix) >= 1, self.shape(&s0), s1.shape(&s0), 0 <= ix < s0.wires.len(), ix == $i, w0 == WireIndex::Virtual($i), s0.wires[ix].refcount > 0, s1.wires[ix].refcount == 0, s1.wires[ix].terms.len() == 0, s1.wires[ix].value == $v,
                        ts == s0.wires[ix].terms@, s0.sound(), self.sound(), count(ts, ix) == 0, self.wires[ix] == s1.wires[ix], refs(s1.wires@) < refs(s0.wires@), refs(self.wires@) <= refs(s1.wires@),
                        forall|j: int| 0 <= j < s0.wires.len() && j != ix ==> #[trigger] s1.wires[j] == s0.wires[j], s1.free@ == s0.free@,
                        forall|i: int| 0 <= i < s0.wires.len() ==> #[trigger] self.held(i) == s0.held(i) - hit(w0, i) + count(ts.skip(it0.index() as int), i),
                        forall|i: int| 0 <= i < s0.wires.len() ==> #[trigger] self.later(&s1, i),
                        forall|i: int| i < 0 || i >= s0.wires.len() ==> #[trigger] times_in(self.free@, i) == times_in(s0.free@, i),
                        forall|den: Den| s0.reads(den) ==> #[trigger] self.total(den) == fadd(s0.total(den), fmul($v.v(), comb(ts.take(it0.index() as int), den))),
                        forall|j: int| 0 <= j < ts.len() ==> s0.has((#[trigger] ts[j]).0),
                     """,
                     start="""let ghost k_ = it0.index() as int; let ghost s2 = *self; let ghost w_ = ts[k_].0; let ghost c_ = ts[k_].1;
                     proof {
                        assert forall|i: int| 0 <= i < s0.wires.len() implies #[trigger] s2.held(i) == s0.held(i) - hit(w0, i) + hit(w_, i) + count(ts.skip(k_ + 1), i) && count(ts.skip(k_ + 1), i) >= 0 by { count_first(ts.skip(k_), i); assert(ts.skip(k_).skip(1) =~= ts.skip(k_ + 1)); count_pos(ts.skip(k_ + 1), i); }
                        match w_ { WireIndex::Virtual(j) => { occ_pos(s2.wires@, j as int); assert(s0.has(w_)); assert(s0.held(j as int) >= hit(w0, j as int)); assert(hit(w_, j as int) == 1); assert(s2.held(j as int) >= 1); assert(s2.wires[j as int].refcount > 0); }, _ => {} }
                        assert forall|t: VirtualTable| #[trigger] t.shape(&s2) && (forall|i: int| 0 <= i < s2.wires.len() ==> (#[trigger] t.wires[i]).refcount == s2.wires[i].refcount && t.wires[i].terms@ == s2.wires[i].terms@)
                            implies t.sound() && refs(t.wires@) == refs(s2.wires@) && (forall|i: int| 0 <= i < s2.wires.len() ==> #[trigger] t.held(i) == s2.held(i)) by {
                            refs_same(s2.wires@, t.wires@);
                            assert forall|i: int| 0 <= i < s2.wires.len() implies #[trigger] t.held(i) == s2.held(i) by { occ_same(s2.wires@, t.wires@, i); }
                            assert forall|k: int| 0 <= k < t.wires.len() implies #[trigger] t.listed(k) by { assert(s2.listed(k)); }
                        }
                        assert forall|i: int| 0 <= i < s0.wires.len() implies s2.later(&s1, i) && ((#[trigger] s2.wires[i]).refcount > 0 ==> s0.wires[i].refcount > 0 && s2.wires[i].terms@ == s0.wires[i].terms@) by { assert(s2.later(&s1, i)); }
                        assert forall|den: Den| s0.reads(den) implies fadd(#[trigger] s2.total(den), fmul(cmul($v, c_).v(), den(w_))) == fadd(s0.total(den), fmul($v.v(), comb(ts.take(k_ + 1), den))) by {
                            let u = ts.take(k_ + 1); assert(u.drop_last() =~= ts.take(k_)); assert(u.last() == ts[k_]);
                            cmul_v($v, c_); mul_assoc($v.v(), c_.v(), den(w_)); distr($v.v(), comb(ts.take(k_), den), fmul(c_.v(), den(w_)));
                            add_assoc(s0.total(den), fmul($v.v(), comb(ts.take(k_), den)), fmul($v.v(), fmul(c_.v(), den(w_))));
                        }
                     }""",
                     end="""proof {
                        assert forall|i: int| 0 <= i < s0.wires.len() implies #[trigger] self.later(&s1, i) by { assert(s2.later(&s1, i)); }
                        assert forall|den: Den| s0.reads(den) implies #[trigger] self.total(den) == fadd(s0.total(den), fmul($v.v(), comb(ts.take(k_ + 1), den))) by {}
                     }""",
                     after="""proof { s3 = *self; resolved = true; vv = $v.v(); assert(ts.skip(ts.len() as int) =~= Seq::empty()); assert(ts.take(ts.len() as int) =~= ts);
                        assert forall|i: int| 0 <= i < s0.wires.len() && i != ix implies #[trigger] s3.later(&s0, i) by { assert(s3.later(&s1, i)); }
                        assert(s3.later(&s1, ix));
                     }"""),
         ],
         post="""proof {
            let t = *self;
            match w0 {
                WireIndex::Virtual(i0) => {
                    let ix = i0 as int;
                    if resolved {
                        assert(t.free@.drop_last() =~= s3.free@); assert(t.free@.last() == ix);
                        assert forall|i: int| i < 0 || i >= s0.wires.len() implies #[trigger] times_in(t.free@, i) == times_in(s0.free@, i) by { assert(times_in(s3.free@, i) == times_in(s0.free@, i)); }
                        assert forall|i: int| 0 <= i < s0.wires.len() implies #[trigger] t.held(i) == s0.held(i) - hit(w0, i) by { occ_same(s3.wires@, t.wires@, i); assert(s3.held(i) == s0.held(i) - hit(w0, i)); }
                        assert forall|i: int| 0 <= i < s0.wires.len() implies #[trigger] t.later(&s0, i) by { assert(t.free@.drop_last() =~= s3.free@); if i != ix { assert(s3.later(&s0, i)); } }
                        assert forall|k: int| 0 <= k < t.wires.len() implies #[trigger] t.listed(k) by { assert(s3.listed(k)); }
                        refs_same(s3.wires@, t.wires@);
                        azero(vv);
                        assert(bumped(t, s3, w0, vv));
                        assert forall|den: Den| s0.reads(den) implies #[trigger] t.total(den) == s0.total(den) by {
                            bump(t, s3, w0, vv, den); let x = fmul(vv, den(w0));
                            assert(s3.total(den) == fadd(s0.total(den), x));
                            add_assoc(t.total(den), x, fneg(x)); add_assoc(s0.total(den), x, fneg(x)); add_neg(x); add_zero(t.total(den)); add_zero(s0.total(den));
                        }
                    } else {
                        assert forall|i: int| 0 <= i < s0.wires.len() implies #[trigger] t.held(i) == s0.held(i) - hit(w0, i) by { occ_same(s0.wires@, t.wires@, i); }
                        assert forall|k: int| 0 <= k < t.wires.len() implies #[trigger] t.listed(k) by { assert(s0.listed(k)); }
                        refs_change(s0.wires@, t.wires@, ix);
                        assert(values(t.wires@) =~= values(s0.wires@));
                        assert forall|den: Den| s0.reads(den) implies #[trigger] t.total(den) == s0.total(den) by {}
                    }
                },
                _ => {},
            }
         }"""),
    dict(name="WireEvalSum::new", fn="new", file=COMMON, title="nothing yet, gain one", sig="impl WireEvalSum { fn new(one: F) -> (r: WireEvalSum)", suffix="}", context=COEFFS + OPS + EVALS, spec="ensures r.value == fzero(), r.one == one, r.gain.v() == fone(),"),
    dict(name="WireEvalSum::add_term", fn="add_term", file=COMMON, title="the wire's value times coefficient and gain", sig="impl WireEvalSum { fn add_term(self, wire_eval: &WireEval, coeff: Coeff) -> (r: WireEvalSum)", suffix="}", context=COEFFS + OPS + EVALS, rewrite=[ME],
         spec="ensures r.value == fadd(self.value, fmul(ev(*wire_eval, self.one), fmul(coeff.v(), self.gain.v()))), r.one == self.one, r.gain == self.gain,", pre="let mut me = self; proof { cmul_v(coeff, self.gain); }"),
    dict(name="WireEvalSum::gain", fn="gain", file=COMMON, title="gains multiply", sig="impl WireEvalSum { fn gain_(self, coeff: Coeff) -> (r: WireEvalSum)", suffix="}", context=COEFFS + OPS + EVALS, rewrite=[ME],
         spec="ensures r.value == self.value, r.one == self.one, r.gain.v() == fmul(self.gain.v(), coeff.v()),", pre="let mut me = self; proof { cmul_v(self.gain, coeff); }"),
    dict(name="Coeff::value", fn="value", within=r"impl<F: Field> Coeff<F>", file=COEFF, title="the field element", sig="impl Coeff { pub fn value(&self) -> (r: F)", suffix="}", spec="ensures r == self.v(),"),
    dict(name="Coeff::is_zero", fn="is_zero", within=r"impl<F: Field> Coeff<F>", file=COEFF, title="zero is recognised (one, two and minus one are not zero)", sig="impl Coeff { pub fn is_zero(&self) -> (r: bool)", suffix="}", spec="ensures r == (self.v() == fzero()),",
         context=LAWS, rewrite=[(r"\b(\w+)\.is_zero\(\)\.into\(\)", r"\1.vanishes()", "comparison with zero")], pre="proof { one_nonzero(); two_nonzero(); neg_zero(); match *self { Coeff::NegativeArbitrary(v) => { neg_neg(v); }, _ => {} } neg_neg(fone()); }"),
    dict(name="Coeff::mul", fn="mul", within=r"impl<F: Field> Mul for Coeff<F>", file=COEFF, title="the product of the values", sig="fn mul(this: Coeff, other: Coeff) -> (r: Coeff)", spec="ensures r.v() == fmul(this.v(), other.v()),", context=LAWS + VALUE, rewrite=[SELF_],
         pre="proof { let (a, b) = (this.v(), other.v()); mul_zero(a); zmul(b); mul_one(a); mone(b); neg_neg(fone()); double(a); double(b); mul_comm(a, b); negs(this); negs(other); negone(a); negone(b); mul_comm(a, fneg(fone())); }"),
    dict(name="Coeff::add", fn="add", within=r"impl<F: Field> Add for Coeff<F>", file=COEFF, title="the sum of the values", sig="fn add(this: Coeff, other: Coeff) -> (r: Coeff)", spec="ensures r.v() == fadd(this.v(), other.v()),", context=LAWS + VALUE, rewrite=[SELF_],
         pre="proof { let (a, b) = (this.v(), other.v()); add_zero(a); azero(b); add_zero(b); add_comm(a, b); add_neg(fone()); neg_add(fone(), fone()); let i = fneg(fone()); add_assoc(fone(), fone(), i); add_zero(fone()); negs(this); negs(other); sums(this, other); sums(other, this); }"),
] + evaluators("sx", SX, False) + evaluators("sxy", SXY, True) + [
    dict(name="VirtualTable::alloc", fn="alloc", within=r"VirtualTable<'_, F, R>", file=SY, title="a cleared wire, held once, that no combination mentions; no total changes", sig="impl VirtualTable { fn alloc(&mut self) -> (r: WireIndex)", suffix="}", context=SYT, spec=T_ALLOC_SPEC, transform=[ASSERTS],
         pre="""let ghost s = *self; proof { if s.free.len() > 0 { times_has(s.free@, s.free.len() - 1); let i = s.free@.last() as int; assert(times_in(s.free@, i) == (if 0 <= i < s.wires.len() && s.wires[i].refcount == 0 { 1int } else { 0 })); assert(s.dead(i)); assert(s.held(i) >= 0); occ_pos(s.wires@, i); } }""",
         post="""proof {
            let t = *self; let i = r__->Virtual_0 as int; let n = s.wires.len() as int;
            assert forall|k: int| 0 <= k < t.wires.len() implies #[trigger] t.listed(k) by { if k < n && k != i { assert(s.listed(k)); } }
            if i < n {
                assert forall|j: int| 0 <= j < n implies occ(t.wires@, j) == occ(s.wires@, j) by { occ_same(s.wires@, t.wires@, j); }
                assert forall|j: int| 0 <= j < n && j != i implies #[trigger] t.held(j) == s.held(j) by { assert(occ(t.wires@, j) == occ(s.wires@, j)); }
                assert(occ(t.wires@, i) == occ(s.wires@, i));
                assert(values(t.wires@) =~= values(s.wires@));
                assert forall|j: int| #[trigger] times_in(t.free@, j) == (if 0 <= j < t.wires.len() && t.wires[j].refcount == 0 { 1int } else { 0 }) by { assert(times_in(s.free@, j) == (if 0 <= j < n && s.wires[j].refcount == 0 { 1int } else { 0 })); assert(s.free@.drop_last() =~= t.free@); }
                assert forall|j: int| 0 <= j < n implies #[trigger] t.dead(j) by { assert(s.dead(j)); }
            } else {
                assert(t.wires@.drop_last() =~= s.wires@);
                assert forall|j: int| 0 <= j < n implies #[trigger] t.held(j) == s.held(j) by { }
                assert forall|k: int| 0 <= k < n implies count((#[trigger] s.wires[k]).terms@, n) == 0 by { assert(s.listed(k)); assert forall|q: int| 0 <= q < s.wires[k].terms.len() implies (#[trigger] s.wires[k].terms@[q]).0 != WireIndex::Virtual(n as usize) by { assert(s.has(s.wires[k].terms[q].0)); } count_none(s.wires[k].terms@, n); }
                occ_none(s.wires@, n);
                assert(values(t.wires@).drop_last() =~= values(s.wires@));
                assert forall|den: Den| #[trigger] t.total(den) == s.total(den) by { let g = |i: int| den(WireIndex::Virtual(i as usize)); zmul(g(n)); add_zero(row(values(s.wires@), g)); }
                assert forall|j: int| #[trigger] times_in(t.free@, j) == (if 0 <= j < t.wires.len() && t.wires[j].refcount == 0 { 1int } else { 0 }) by { assert(times_in(s.free@, j) == (if 0 <= j < n && s.wires[j].refcount == 0 { 1int } else { 0 })); }
                assert forall|j: int| 0 <= j < t.wires.len() implies #[trigger] t.dead(j) by { if j < n { assert(s.dead(j)); } }
            }
         }"""),
    dict(name="VirtualTable::update", fn="update", within=r"VirtualTable<'_, F, R>", file=SY, title="the wire's terms are the given ones", sig="impl VirtualTable { fn update(&mut self, index: WireIndex, terms: Vec<Term>)", suffix="}", context=SYT, spec=UPDATE_SPEC),
    dict(name="Wire::increment_refcount", fn="increment_refcount", file=SY, title="one more reference, for virtual wires", sig="impl Wire { fn increment_refcount(&self, table: &mut VirtualTable)", suffix="}", context=SYT, spec=INCREMENT.replace("wire.", "self."), rewrite=[BORROW]),
    dict(name="Wire::clone", fn="clone", within=r"Clone for Wire", file=SY, title="the same wire, held once more", sig="impl Wire { fn clone_(&self, table: &mut VirtualTable) -> (r: Wire)", suffix="}", context=SYT, spec=INCREMENT.replace("wire.", "self.") + " r.index == self.index, r.table.is_some() == self.table.is_some(),", rewrite=[BORROW, (r"self\.table\b(?!\.)", "(match self.table { Some(_) => Some(Table {}), None => None })", "copying the reference to the table")]),
    dict(name="Wire::drop", fn="drop", within=r"Drop for Wire", file=SY, title="gives up one reference", sig="impl Wire { fn drop_(&self, table: &mut VirtualTable)", suffix="}", context=SYT + T_FREE, rewrite=[BORROW],
         spec="requires old(table).sound(), old(table).tidy(), old(table).live(self.index), self.index is Virtual ==> self.table.is_some() ensures final(table).sound(), final(table).tidy(), final(table).shape(old(table)), forall|i: int| 0 <= i < old(table).wires.len() ==> #[trigger] final(table).held(i) == old(table).held(i) - hit(self.index, i), forall|den: Den| old(table).reads(den) ==> #[trigger] final(table).total(den) == old(table).total(den),",
         pre="let ghost s = *table;", post="proof { if self.index is Virtual { still_tidy(s, *table); } }"),
    dict(name="TermCollector::new", fn="new", within=r"impl<F: Field> TermCollector", file=SY, title="no terms, gain one", sig="impl TermCollector { fn new() -> (r: TermCollector)", suffix="}", context=SYT, spec="ensures r.terms.len() == 0, r.gain.v() == fone(),"),
    dict(name="TermCollector::add_term", fn="add_term", within=r"for TermCollector", file=SY, title="one more term, and one more reference to its wire", sig="impl TermCollector { fn add_term(self, table: &mut VirtualTable, wire: &Wire, coeff: Coeff) -> (r: TermCollector)", suffix="}", context=SYT + W_INC, spec=COLLECT,
         rewrite=[ME, (r"wire\.increment_refcount\(\)", "wire.increment_refcount(table)", "the RefCell: the one table is a parameter")], pre="let mut me = self; proof { cmul_v(coeff, self.gain); }", post="proof { assert(r__.terms@.drop_last() =~= self.terms@); }"),
    dict(name="TermCollector::gain", fn="gain", within=r"for TermCollector", file=SY, title="gains multiply", sig="impl TermCollector { fn gain_(self, coeff: Coeff) -> (r: TermCollector)", suffix="}", context=SYT, spec="ensures r.terms@ == self.terms@, r.gain.v() == fmul(self.gain.v(), coeff.v()),", rewrite=[ME], pre="let mut me = self; proof { cmul_v(self.gain, coeff); }"),
    dict(name="TermEnforcer::add_term", fn="add_term", within=r"for TermEnforcer", file=SY, title="the total grows by coefficient times power of y times the wire", sig="impl TermEnforcer { fn add_term(self, table: &mut VirtualTable, wire: &Wire, coeff: Coeff) -> (r: TermEnforcer)", suffix="}", context=SYT + T_ADD % ADD_SPEC, spec=ENFORCE,
         rewrite=[(r"self\.0\.borrow_mut\(\)", "table", "the RefCell: the one table is a parameter")], pre="proof { cmul_v(coeff, self.1); }"),
    dict(name="TermEnforcer::gain", fn="gain", within=r"for TermEnforcer", file=SY, title="gains multiply", sig="impl TermEnforcer { fn gain_(self, coeff: Coeff) -> (r: TermEnforcer)", suffix="}", context=SYT, spec="ensures r.1.v() == fmul(self.1.v(), coeff.v()),", rewrite=[ME], pre="let mut me = self; proof { cmul_v(self.1, coeff); }"),
    dict(name="sy::gate", fn="gate", file=SY, title="the four wires of the next gate", sig="impl Evaluator { fn gate(&mut self) -> (r: Result<(Wire, Wire, Wire, Wire), Error>)", suffix="}", context=SYT + DRIVER, rewrite=[RANKN, (r"self\.virtual_table\b(?=\s*[,)])", "Table {}", "the reference to the table")], pre="proof { rank(); }",
         spec="""requires old(self).scope.gates <= rn() ensures final(self).same(old(self)), final(self).virtual_table == old(self).virtual_table, final(self).scope.available_d == old(self).scope.available_d, final(self).scope.current_y == old(self).scope.current_y, final(self).scope.constraints == old(self).scope.constraints,
            r.is_ok() == (old(self).scope.gates < rn()), final(self).scope.gates == old(self).scope.gates + (if r.is_ok() { 1int } else { 0 }), r.is_ok() ==> ({ let i = old(self).scope.gates; let g = r->Ok_0; g.0.index == WireIndex::A(i) && g.1.index == WireIndex::B(i) && g.2.index == WireIndex::C(i) && g.3.index == WireIndex::D(i) }),"""),
    dict(name="sy::alloc", fn="alloc", within=r"Driver<'table> for Evaluator", file=SY, title="the d wire of the last paired gate, or the b wire of a new one", sig="impl Evaluator { fn alloc(&mut self) -> (r: Result<Wire, Error>)", suffix="}",
         context=SYT + DRIVER + """impl Evaluator { #[verifier::external_body] fn gate(&mut self) -> (r: Result<(Wire, Wire, Wire, Wire), Error>) requires old(self).scope.gates <= rn() ensures final(self).same(old(self)), final(self).virtual_table == old(self).virtual_table, final(self).scope.available_d == old(self).scope.available_d, final(self).scope.current_y == old(self).scope.current_y, final(self).scope.constraints == old(self).scope.constraints,
            r.is_ok() == (old(self).scope.gates < rn()), final(self).scope.gates == old(self).scope.gates + (if r.is_ok() { 1int } else { 0 }), r.is_ok() ==> ({ let i = old(self).scope.gates; let g = r->Ok_0; g.0.index == WireIndex::A(i) && g.1.index == WireIndex::B(i) && g.2.index == WireIndex::C(i) && g.3.index == WireIndex::D(i) }) { unimplemented!() } }""",
         rewrite=[(r"self\.gate\(\|\| unreachable!\(\)\)", "self.gate()", "the witness closure, which is never called")],
         spec="""requires old(self).scope.gates <= rn() ensures final(self).same(old(self)), final(self).virtual_table == old(self).virtual_table, final(self).scope.current_y == old(self).scope.current_y, final(self).scope.constraints == old(self).scope.constraints,
            match old(self).scope.available_d { Some(w) => r == Ok::<Wire, Error>(w) && final(self).scope.available_d is None && final(self).scope.gates == old(self).scope.gates,
                None => r.is_ok() == (old(self).scope.gates < rn()) && (r.is_ok() ==> final(self).scope.gates == old(self).scope.gates + 1 && r->Ok_0.index == WireIndex::B(old(self).scope.gates) && final(self).scope.available_d.is_some() && final(self).scope.available_d->0.index == WireIndex::D(old(self).scope.gates)) },"""),
    dict(name="sy::add", fn="add", within=r"Driver<'table> for Evaluator", file=SY, title="a new wire that stands for the value of the combination; nothing accumulated changes", sig="impl Evaluator { fn add(&mut self, lc: &Vec<Op<Wire>>) -> (r: Wire)", suffix="}", context=SYT + T_ALLOC + T_UPDATE + GLUE + DRIVER,
         rewrite=[(r"self\.virtual_table\.borrow_mut\(\)", "self.virtual_table", "the RefCell"), (r"\blc\(", "collect(lc, &mut self.virtual_table, ", "running the combination"), (r"Some\(self\.virtual_table\)", "Some(Table {})", "the reference to the table"),
                 (r"(let \w+ = self\.virtual_table\.alloc\(\);)", r"\1 proof { t1 = self.virtual_table; let i = $w->Virtual_0 as int; assert forall|k: int| 0 <= k < lc@.len() implies match #[trigger] lc@[k] { Op::Term(w, c) => t1.live(w.index) && (w.index is Virtual ==> w.table.is_some()), _ => true } by { match lc@[k] { Op::Term(w, c) => { assert(s.live(w.index)); match w.index { WireIndex::Virtual(j) => { occ_pos(s.wires@, j as int); assert(t1.held(j as int) == s.held(j as int)); }, _ => {} } }, _ => {} } } assert forall|j: int| 0 <= j < t1.wires.len() implies (#[trigger] t1.wires[j]).refcount + lc.len() <= usize::MAX by { if j != i { assert(t1.wires[j] == s.wires[j]); } } }", "ghost state"),
                 (r"(let \w+ = collect\([^;]*;)", r"\1 proof { t2 = self.virtual_table; terms_ = $ts@; }", "ghost state")], rlimit=200,
         spec="""requires old(self).virtual_table.sound(), old(self).virtual_table.tidy(), usable(lc@, old(self).virtual_table), room(old(self).virtual_table, lc.len() as int), lc.len() < usize::MAX
            ensures final(self).same(old(self)), final(self).scope == old(self).scope, final(self).virtual_table.sound(), final(self).virtual_table.tidy(), r.index is Virtual, r.table.is_some(),
                ({ let i = r.index->Virtual_0; let s = old(self).virtual_table; let t = final(self).virtual_table; &&& (i as int) < t.wires.len() && t.held(i as int) == 1 && s.wires.len() <= t.wires.len()
                    &&& forall|j: int| 0 <= j < s.wires.len() && j != i ==> #[trigger] t.held(j) == s.held(j)
                    &&& forall|den: Den| #[trigger] s.reads(den) ==> t.reads(with(den, i, meaning(lc@, under(den)).0)) && t.total(with(den, i, meaning(lc@, under(den)).0)) == s.total(den) }),""",
         names={"w": r"let (\w+) = self\.virtual_table\.borrow_mut\(\)\.alloc", "ts": r"let (\w+) = lc\("},
         pre="let ghost s = self.virtual_table; let ghost mut t1 = s; let ghost mut t2 = s; let ghost mut terms_ = Seq::<Term>::empty();",
         post="""proof {
            let t = self.virtual_table; let iu = r__.index->Virtual_0; let i = iu as int; let n = t.wires.len() as int;
            assert forall|j: int| 0 <= j < n implies #[trigger] t.held(j) == t1.held(j) by { occ_change(t2.wires@, t.wires@, i, j); assert(t2.wires[i].terms@ =~= Seq::empty()); assert(t2.held(j) == t1.held(j) + count(terms_, j)); }
            assert forall|k: int| 0 <= k < n implies #[trigger] t.listed(k) by { assert(t2.listed(k)); if k == i { assert forall|q: int| 0 <= q < t.wires[i].terms.len() implies t.has((#[trigger] t.wires[i].terms[q]).0) by { assert(t1.live(terms_[q].0)); } } }
            assert forall|k: int| 0 <= k < n implies #[trigger] t.dead(k) by { assert(t2.dead(k)); count_pos(terms_, k); assert(t1.wires[i].refcount == 1); }
            assert forall|k: int| #[trigger] times_in(t.free@, k) == (if 0 <= k < n && t.wires[k].refcount == 0 { 1int } else { 0 }) by { assert(times_in(t2.free@, k) == (if 0 <= k < n && t2.wires[k].refcount == 0 { 1int } else { 0 })); }
            // the new wire is mentioned by nobody
            assert forall|k: int| 0 <= k < lc@.len() implies match #[trigger] lc@[k] { Op::Term(w, c) => w.index != WireIndex::Virtual(iu), _ => true } by { match lc@[k] { Op::Term(w, c) => { assert(s.live(w.index)); if w.index == WireIndex::Virtual(iu) { occ_pos(s.wires@, i); } }, _ => {} } }
            assert(occ(t1.wires@, i) == 0);
            assert forall|den: Den| #[trigger] s.reads(den) implies t.reads(with(den, iu, meaning(lc@, under(den)).0)) && t.total(with(den, iu, meaning(lc@, under(den)).0)) == s.total(den) by {
                let v = meaning(lc@, under(den)).0; let dem = with(den, iu, v);
                meaning_agree(lc@, den, iu, v);
                assert forall|k: int| 0 <= k < n && (#[trigger] t.wires[k]).refcount > 0 implies dem(WireIndex::Virtual(k as usize)) == comb(t.wires[k].terms@, dem) by {
                    if k == i { assert(comb(terms_, dem) == meaning(lc@, under(dem)).0); }
                    else { occ_has(t1.wires@, k, i); count_pos(t1.wires[k].terms@, i); assert(count(t1.wires[k].terms@, i) == 0); assert(t2.wires[k].terms@ == t1.wires[k].terms@); assert(t1.wires[k] == s.wires[k]); lc_agree(s.wires[k].terms@, den, dem, i); assert(s.wires[k].refcount > 0); }
                }
                let (vs, v1) = (values(t.wires@), values(t1.wires@));
                assert(vs =~= v1);
                row_agree(v1, |k: int| den(WireIndex::Virtual(k as usize)), |k: int| dem(WireIndex::Virtual(k as usize)));
                row_agree(t.a@, |k: int| den(WireIndex::A(k as usize)), |k: int| dem(WireIndex::A(k as usize))); row_agree(t.b@, |k: int| den(WireIndex::B(k as usize)), |k: int| dem(WireIndex::B(k as usize))); row_agree(t.c@, |k: int| den(WireIndex::C(k as usize)), |k: int| dem(WireIndex::C(k as usize))); row_agree(t.d@, |k: int| den(WireIndex::D(k as usize)), |k: int| dem(WireIndex::D(k as usize)));
                assert(t1.total(den) == s.total(den));
            }
         }"""),
    dict(name="sy::enforce_zero", fn="enforce_zero", within=r"Driver<'table> for Evaluator", file=SY, title="the total grows by the constraint's power of y times the value of its combination", sig="impl Evaluator { fn enforce_zero(&mut self, lc: &Vec<Op<Wire>>) -> (r: Result<(), Error>)", suffix="}", context=SYT + GLUE + DRIVER,
         rewrite=NARROW + [(r"(?<=TermEnforcer\()\s*self\.virtual_table", "Table {}", "the reference to the table"), (r"\blc\(", "enforce(lc, &mut self.virtual_table, ", "running the combination")], pre="proof { rank(); }",
         spec="""requires old(self).inv(), usable(lc@, old(self).virtual_table)
            ensures final(self).same(old(self)), final(self).inv(), final(self).scope.gates == old(self).scope.gates, final(self).scope.available_d == old(self).scope.available_d, r.is_ok() == (old(self).scope.constraints < 4 * rn() - 1), r.is_err() ==> *final(self) == *old(self),
                r.is_ok() ==> final(self).scope.constraints == old(self).scope.constraints + 1 && final(self).scope.current_y == fmul(old(self).scope.current_y, old(self).y_inv) && credited(old(self).virtual_table, final(self).virtual_table)
                    && forall|den: Den| #[trigger] final(self).virtual_table.total(den) == fadd(old(self).virtual_table.total(den), fmul(old(self).scope.current_y, meaning(lc@, under(den)).0)),"""),
]

SY_CTX = SYT + DRIVER + planned_("(self.y == s.y && self.y_inv == s.y_inv && self.floor_plan == s.floor_plan)", "&& (self.seg().num_constraints > 0 ==> self.scope.current_y == fpow(self.y, (self.seg().constraint_start + self.seg().num_constraints - 1) as nat))")
FUNCTIONS += routines("sy", SY, SY_CTX, r"\bSyScope\b", "proof { rank(); let k = (self.current_routine + 1) as int; assert(fits(self.floor_plan@[k])); }")

# the evaluation proper
EVAL_ANY = """
#[verifier::external_body] fn orchestrate(e: &mut Evaluator) -> (r: Result<(), Error>) requires old(e).starts() ensures r.is_ok() ==> ran(*old(e), *final(e)) && final(e).ends(old(e)) { unimplemented!() }
#[verifier::external_body] fn filled(x: F, n: usize) -> (r: Vec<F>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
/// the plan's segments do not overlap, the root's is first
pub open spec fn rooted(fp: Seq<ConstraintSegment>) -> bool { planned(fp) && fp.len() > 0 && fp[0].gate_start == 0 && fp[0].constraint_start == 0 }
pub open spec fn before(fp: Seq<ConstraintSegment>, i: int, j: int) -> bool { fp[i].constraint_start + fp[i].num_constraints <= fp[j].constraint_start }
pub open spec fn disjoint(fp: Seq<ConstraintSegment>) -> bool { forall|i: int, j: int| 0 <= i < j < fp.len() ==> #[trigger] before(fp, i, j) }
/// one Horner step of y per constraint, as sxy does
pub open spec fn horner(v: Seq<F>, y: F) -> F decreases v.len() { if v.len() == 0 { fzero() } else { fadd(fmul(horner(v.drop_last(), y), y), v.last()) } }
/// every constraint of a segment by its own power of y, the last one's being c
pub open spec fn weighted(v: Seq<F>, y: F, c: nat) -> F decreases v.len() { if v.len() == 0 { fzero() } else { fadd(weighted(v.drop_last(), y, c + 1), fmul(v.last(), fpow(y, c))) } }
/// coefficients c .. c + n of a polynomial at y
pub open spec fn stretch_at(b: Seq<F>, y: F, c: nat, n: nat) -> F decreases n { if n == 0 { fzero() } else { fadd(stretch_at(b, y, c + 1, (n - 1) as nat), fmul(b[c as int], fpow(y, c))) } }
/// C08: sxy's segment sum, shifted, is what sx's coefficients of that segment give at y
pub proof fn segment_sums(v: Seq<F>, b: Seq<F>, y: F, c: nat) requires forall|k: int| 0 <= k < v.len() ==> b[c + k] == #[trigger] v[v.len() - 1 - k]
    ensures fmul(fpow(y, c), horner(v, y)) == weighted(v, y, c), stretch_at(b, y, c, v.len()) == weighted(v, y, c) decreases v.len()
{
    if v.len() == 0 { mul_zero(fpow(y, c)); } else {
        let n = v.len() as int; let w = v.drop_last(); let h = horner(w, y); let p = fpow(y, c);
        assert forall|k: int| 0 <= k < w.len() implies b[c + 1 + k] == #[trigger] w[w.len() - 1 - k] by { assert(w[w.len() - 1 - k] == v[n - 1 - (k + 1)]); assert(b[c + (k + 1)] == v[n - 1 - (k + 1)]); }
        segment_sums(w, b, y, c + 1);
        assert(b[c as int + 0] == v[n - 1 - 0]);
        distr(p, fmul(h, y), v.last()); mul_comm(h, y); mul_assoc(p, y, h); up(y, c); mul_comm(p, v.last());
    }
}
/// the powers sy uses, one per constraint of a segment of n
pub proof fn falling(y: F, i: F, top: nat, k: nat) requires fmul(y, i) == fone(), k <= top ensures fmul(fpow(y, top), fpow(i, k)) == fpow(y, (top - k) as nat) { downs(y, i, top, k); }
pub open spec fn within(s: ConstraintSegment, q: int) -> bool { s.constraint_start <= q < s.constraint_start + s.num_constraints }
"""
EVAL_X = """
pub proof fn squares(x: F, i: F) requires fmul(x, i) == fone() ensures ({ let n = rn(); let x2 = fmul(fpow(x, n), fpow(x, n)); let i2 = fmul(fpow(i, n), fpow(i, n)); x2 == fpow(x, 2 * n) && i2 == fpow(i, 2 * n) && fmul(x2, i) == fpow(x, pa(0)) && fmul(fmul(x2, x2), i) == fpow(x, pc(0)) && x2 == fpow(x, pb(0)) }) {
    let n = rn(); rank(); pow_add(x, n, n); pow_add(i, n, n); pow_add(x, 2 * n, 2 * n); assert(n + n == 2 * n); assert(2 * n + 2 * n == 4 * n); down(x, i, 2 * n); down(x, i, 4 * n); assert((2 * n - 1) as nat == pa(0)); assert((4 * n - 1) as nat == pc(0)); assert(pb(0) == 2 * n);
}
"""
EVAL_SX = EVAL_ANY + EVAL_X + """
pub struct Poly { pub c: Vec<F> }
impl Poly {
    #[verifier::external_body] pub fn new() -> (r: Poly) ensures r.c.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn from_coeffs(c: Vec<F>) -> (r: Poly) requires c.len() == 4 * rn() ensures r.c@ == c@ { unimplemented!() }
}
#[verifier::external_body] fn reverse_range(v: &mut Vec<F>, a: usize, b: usize) requires a <= b <= old(v).len() ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < old(v).len() ==> #[trigger] final(v)[i] == (if a <= i < b { old(v)[a + b - 1 - i] } else { old(v)[i] }) { unimplemented!() }
pub open spec fn turned(a: Seq<F>, b: Seq<F>, s: ConstraintSegment) -> bool { forall|q: int| within(s, q) ==> b[#[trigger] mirror(s, q)] == a[q] }
/// the first n segments of b are those of a turned round; the others are as they were
pub open spec fn turned_to(a: Seq<F>, b: Seq<F>, fp: Seq<ConstraintSegment>, n: int) -> bool { b.len() == a.len() && (forall|k: int| 0 <= k < n ==> turned(a, b, #[trigger] fp[k])) && (forall|p: int| 0 <= p < a.len() && (forall|k: int| 0 <= k < n ==> !within(#[trigger] fp[k], p)) ==> #[trigger] b[p] == a[p]) }
pub proof fn turn(a: Seq<F>, b: Seq<F>, c: Seq<F>, fp: Seq<ConstraintSegment>, n: int)
    requires 0 <= n < fp.len(), planned(fp), disjoint(fp), a.len() == 4 * rn(), turned_to(a, b, fp, n), c.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] c[i] == (if within(fp[n], i) { b[mirror(fp[n], i)] } else { b[i] })
    ensures turned_to(a, c, fp, n + 1)
{
    assert(fits(fp[n]));
    assert forall|k: int| 0 <= k < n + 1 implies turned(a, c, #[trigger] fp[k]) by {
        assert(fits(fp[k]));
        assert forall|q: int| within(fp[k], q) implies c[#[trigger] mirror(fp[k], q)] == a[q] by {
            if k < n { assert(before(fp, k, n)); assert(turned(a, b, fp[k])); assert(!within(fp[n], mirror(fp[k], q))); }
            else { assert(mirror(fp[n], mirror(fp[n], q)) == q); assert forall|j: int| 0 <= j < n implies !within(#[trigger] fp[j], q) by { assert(before(fp, j, n)); } assert(b[q] == a[q]); }
        }
    }
    assert forall|p: int| 0 <= p < a.len() && (forall|k: int| 0 <= k < n + 1 ==> !within(#[trigger] fp[k], p)) implies #[trigger] c[p] == a[p] by { assert(!within(fp[n], p)); }
}
"""
TO_EVAL = [(r"R::num_coeffs\(\)", "rank_coeffs()", "the rank"), RANKN, (r"(\w+) == F::ZERO", r"\1.eq_(F::ZERO)", "comparison of field elements"), (r"(\w+)\.invert\(\)\s*\.(?:expect\([^)]*\)|unwrap\(\))", r"\1.inverse()", "the inverse of a number that is not zero"),
           (r"Evaluator::<[^>]*>", "Evaluator", "type parameters"), (r"\bS\w+Scope \{", "Scope {", "the scope's type"), (r"_marker: core::marker::PhantomData,", "", "type parameters"), (r"(?:crate::)?raw::orchestrate\(&mut (\w+), [^;?]*\)\?", r"orchestrate(&mut \1)?", "the circuit's synthesis")]
FUNCTIONS += [
    dict(name="sx::eval", fn="eval", file=SX, title="the constants of the point; every constraint ends at its own power of Y, segment by segment; nothing but the whole plan is accepted", sig="fn eval(x: F, floor_plan: Vec<ConstraintSegment>) -> (r: Result<Poly, Error>)", transform=[ASSERTS], context=EVAL_CTX + EVAL(False) + planned_("self.same_point(s)") + EVAL_SX,
         rewrite=TO_EVAL[:1] + TO_EVAL[1:] + [(r"vec!\[F::ZERO; ([^\]]*)\]", r"filled(F::ZERO, \1)", "filling a vector"), (r"sparse::Polynomial", "Poly", "the polynomial, by its coefficients"), (r"for (\w+) in (\w+)\.floor_plan \{", r"for k__ in 0..\2.floor_plan.len() { let \1 = \2.floor_plan[k__];", "segments are copied out of the plan"),
                  (r"(\w+\.result)\[([^\]]*?)\.\.([^\]]*?)\]\s*\.reverse\(\)", r"reverse_range(&mut \1, \2, \3)", "reversing a stretch of a vector"), (r"refuse_unless\(\(\s*(\w+\.result\[0\])\s*\) == \(\s*(\w+)\.one\s*\)\)", r"refuse_unless(\1.eq_(\2.one))", "comparison of field elements")],
         names={"e": r"let mut (\w+) = Evaluator", "seg": r"for (\w+) in \w+\.floor_plan"},
         pre="let ghost fp = floor_plan@; proof { rank(); assert(fits(fp[0])); if x != fzero() { inv_mul(x); squares(x, finv(x)); } }",
         loops=[dict(before="let ghost run = $e; proof { assert(turned_to(run.result@, run.result@, fp, 0)); }", inv="invariant run.floor_plan@ == fp, $e.floor_plan == run.floor_plan, $e.one == run.one, rooted(fp), disjoint(fp), run.result.len() == 4 * rn(), $e.result.len() == 4 * rn(), turned_to(run.result@, $e.result@, fp, k__ as int),", start="let ghost b = $e.result@; proof { assert(fits(fp[k__ as int])); rank(); }", end="proof { turn(run.result@, b, $e.result@, fp, k__ as int); }")],
         spec="""requires rooted(floor_plan@), disjoint(floor_plan@)
            ensures x == fzero() ==> r.is_ok() && r->Ok_0.c.len() == 0,
                x != fzero() && r.is_ok() ==> r->Ok_0.c[0] == fpow(x, 2 * rn()) && exists|s: Evaluator, e: Evaluator| #[trigger] ran(s, e) && s.starts() && e.done(&s) && s.x == x && s.current_routine == 0 && s.floor_plan == floor_plan && s.result@ == Seq::new(4 * rn(), |i: int| fzero()) && e.current_routine + 1 == floor_plan.len() && turned_to(e.result@, r->Ok_0.c@, floor_plan@, floor_plan.len() as int),"""),
    dict(name="sxy::eval", fn="eval", file=SXY, title="the constants of the point; the root's Horner sum and the routines' contributions; nothing but the whole plan is accepted", sig="fn eval(x: F, y: F, floor_plan: Vec<ConstraintSegment>) -> (r: Result<F, Error>)", transform=[ASSERTS], context=EVAL_CTX + EVAL(True) + planned_("self.same_point(s)", "&& self.scope.result == fzero() && self.scope.sum == fzero()") + EVAL_ANY + EVAL_X,
         rewrite=TO_EVAL[1:], pre="let ghost fp = floor_plan@; proof { rank(); assert(fits(fp[0])); if x != fzero() { inv_mul(x); squares(x, finv(x)); } }",
         spec="""requires rooted(floor_plan@)
            ensures x == fzero() ==> r == Ok::<F, Error>(fzero()), x != fzero() && y == fzero() ==> r == Ok::<F, Error>(fpow(x, 2 * rn())),
                x != fzero() && y != fzero() && r.is_ok() ==> exists|s: Evaluator, e: Evaluator| #[trigger] ran(s, e) && s.starts() && e.done(&s) && s.x == x && s.y == y && s.current_routine == 0 && s.floor_plan == floor_plan && e.current_routine + 1 == floor_plan.len() && r->Ok_0 == fadd(e.scope.result, e.scope.sum),"""),
]


def owned(body):
    """The table is owned by whoever uses it: the rows are taken from the view, the table moves into the evaluator, back
    out of it where the evaluator is dropped, and its rows go back to the view where the table is."""

    def before_close(body, pos, text):
        m, d, i = mask(body), 0, pos
        while i >= 0:
            d += (m[i] == "}") - (m[i] == "{")
            if d < 0:
                break
            i -= 1
        if i < 0:
            raise Lost("sy::eval: block not found")
        c = close(m, i)
        return body[:c] + text + body[c:]

    t = re.search(r"let (\w+) = RefCell::new\(VirtualTable::<F, R>", body)
    e = re.search(r"let mut (\w+) = Evaluator", body)
    v = re.search(r"let mut (\w+) = sparse::View::wiring\(\)", body)
    if not (t and e and v):
        raise Lost("sy::eval: table, evaluator or view not found")
    vt, ev, vw = t[1], e[1], v[1]
    body = before_close(body, e.start(), f" {vt} = {ev}.virtual_table; ")
    body = before_close(body, t.start(), "".join(f" {vw}.{k} = {vt}.{k};" for k in "abcd") + " ")
    o = t.end() - len("(VirtualTable::<F, R>")
    c = close(mask(body), o)
    body = body[:t.start()] + f"let mut {vt} = " + body[o + 1:c].replace("VirtualTable::<F, R>", "VirtualTable") + body[c + 1:]
    for pat, rep in [(r"&mut %s\.([abcd])\b" % vw, r"taken(&mut %s.\1)" % vw), (r"\b%s\.borrow_mut\(\)" % vt, f"&mut {vt}"), (r"virtual_table: &%s\b" % vt, f"virtual_table: {vt}"), (r"let %s = %s\.into_inner\(\);" % (vt, vt), "")]:
        body, n = re.subn(pat, rep, body)
        if not n:
            raise Lost(f"sy::eval: `{pat}` does not occur")
    return body


EVAL_SY = EVAL_ANY + """
pub struct SView { pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
pub struct Poly { pub a: Seq<F>, pub b: Seq<F>, pub c: Seq<F>, pub d: Seq<F> }
impl SView {
    #[verifier::external_body] pub fn wiring() -> (r: SView) ensures r.a.len() == 0, r.b.len() == 0, r.c.len() == 0, r.d.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Poly) ensures r.a == self.a@, r.b == self.b@, r.c == self.c@, r.d == self.d@ { unimplemented!() }
}
#[verifier::external_body] fn taken(v: &mut Vec<F>) -> (r: Vec<F>) ensures r@ == old(v)@, final(v).len() == 0 { unimplemented!() }
#[verifier::external_body] fn stretch(v: &mut Vec<F>, n: usize, x: F) ensures final(v)@ == Seq::new(n as nat, |i: int| if i < old(v).len() { old(v)[i] } else { x }) { unimplemented!() }
pub open spec fn gates_of(fp: Seq<ConstraintSegment>) -> int decreases fp.len() { if fp.len() == 0 { 0 } else { gates_of(fp.drop_last()) + fp.last().num_gates } }
#[verifier::external_body] fn all_gates(fp: &Vec<ConstraintSegment>) -> (r: usize) ensures r == gates_of(fp@) { unimplemented!() }
pub open spec fn rows_of(p: Poly, den: Den) -> F { fadd(fadd(row(p.a, |i: int| den(WireIndex::A(i as usize))), row(p.b, |i: int| den(WireIndex::B(i as usize)))), fadd(row(p.c, |i: int| den(WireIndex::C(i as usize))), row(p.d, |i: int| den(WireIndex::D(i as usize))))) }
pub open spec fn blank(s: Seq<F>, n: int) -> bool { s =~= Seq::new(n as nat, |i: int| fzero()) }
"""
FUNCTIONS += [
    dict(name="sy::eval", fn="eval", file=SY, title="starts from empty rows, one entry per gate of the plan; when everything has been given back, the rows are all that was accumulated; nothing but the whole plan is accepted", sig="fn eval(y: F, floor_plan: Vec<ConstraintSegment>) -> (r: Result<Poly, Error>)", transform=[(owned, "the RefCell and the borrowed rows: the one table is owned by whoever uses it"), ASSERTS], context=SY_CTX + EVAL_SY,
         rewrite=TO_EVAL[2:] + [(r"sparse::View", "SView", "the view, by its rows"), (r"(\w+)\.iter\(\)\s*\.map\(\|(\w+)\| \2\.num_gates\)\s*\.sum\(\)", r"all_gates(&\1)", "the sum of the segments' gates"), (r"(\w+\.[abcd])\.resize\(", r"stretch(&mut \1, ", "filling up a vector"), (r"orchestrate\(&mut (\w+)\)\?;", r"proof { s_ = Some(\1); } orchestrate(&mut \1)?; proof { e_ = Some(\1); }", "ghost state")],
         post="""proof { if y != fzero() { let (s, e) = (s_->0, e_->0); assert(ran(s, e)); assert(e.done(&s)); let p = r__->Ok_0; let t = e.virtual_table; let n = gates_of(fp); assert(blank(s.virtual_table.a@, n)); assert(blank(s.virtual_table.b@, n)); assert(blank(s.virtual_table.c@, n)); assert(blank(s.virtual_table.d@, n));
            assert forall|den: Den| #[trigger] t.total(den) == rows_of(p, den) by { all_resolved(t, den); } } }""",
         pre="let ghost mut s_: Option<Evaluator> = None; let ghost mut e_: Option<Evaluator> = None; let ghost fp = floor_plan@; proof { rank(); assert(fits(fp[0])); if y != fzero() { inv_mul(y); } }",
         spec="""requires rooted(floor_plan@)
            ensures y == fzero() ==> r.is_ok() && r->Ok_0.a.len() == 0 && r->Ok_0.b == seq![fone()] && r->Ok_0.c.len() == 0 && r->Ok_0.d.len() == 0,
                y != fzero() && r.is_ok() ==> exists|s: Evaluator, e: Evaluator| #[trigger] ran(s, e) && s.starts() && e.done(&s) && s.y == y && s.current_routine == 0 && s.floor_plan == floor_plan && e.current_routine + 1 == floor_plan.len()
                    && s.virtual_table.wires.len() == 0 && ({ let n = gates_of(floor_plan@); let t = s.virtual_table; blank(t.a@, n) && blank(t.b@, n) && blank(t.c@, n) && blank(t.d@, n) })
                    && ({ let p = r->Ok_0; let t = e.virtual_table; p.a == t.a@ && p.b == t.b@ && p.c == t.c@ && p.d == t.d@ && forall|den: Den| #[trigger] t.total(den) == rows_of(p, den) }),""",
         ),
]


LIB = "crates/ragu_circuits/src/lib.rs"
OBJECT = RANK_ + """
#[derive(Copy, Clone)] pub struct Circ { pub id: u64 }
#[derive(Copy, Clone)] pub struct Poly { pub id: u64 }
#[derive(Copy, Clone)] pub struct Plan { pub id: u64 }
#[derive(Copy, Clone)] pub struct Segments { pub id: u64 }
#[derive(Copy, Clone)] pub struct Metrics { pub num_gates: usize, pub num_constraints: usize, pub segments: Segments }
#[derive(Copy, Clone)] pub struct Processed { pub circuit: Circ, pub metrics: Metrics }
/// measuring, and the three evaluators: each is under its own contract
pub uninterp spec fn measured(c: Circ) -> Result<Metrics, Error>;
pub uninterp spec fn xy_of(c: Circ, x: F, y: F, fp: Plan) -> Result<F, Error>;
pub uninterp spec fn x_of(c: Circ, x: F, fp: Plan) -> Result<Poly, Error>;
pub uninterp spec fn y_of(c: Circ, y: F, fp: Plan) -> Result<Poly, Error>;
#[verifier::external_body] fn measure(c: &Circ) -> (r: Result<Metrics, Error>) ensures r == measured(*c) { unimplemented!() }
#[verifier::external_body] fn sxy_eval(c: &Circ, x: F, y: F, fp: Plan) -> (r: Result<F, Error>) ensures r == xy_of(*c, x, y, fp) { unimplemented!() }
#[verifier::external_body] fn sx_eval(c: &Circ, x: F, fp: Plan) -> (r: Result<Poly, Error>) ensures r == x_of(*c, x, fp) { unimplemented!() }
#[verifier::external_body] fn sy_eval(c: &Circ, y: F, fp: Plan) -> (r: Result<Poly, Error>) ensures r == y_of(*c, y, fp) { unimplemented!() }
#[verifier::external_body] fn into_raw_circuit_object(circuit: Circ, metrics: Metrics) -> (r: Result<Processed, Error>) ensures r == Ok::<Processed, Error>(Processed { circuit, metrics }) { unimplemented!() }
"""
FITS = (r"\.(?:expect\(\s*\"[^\"]*\"\s*\)|unwrap\(\))", ".ok().unwrap()", "panic texts")
OF = r"CircuitObject<F, R> for Processed<RC>"
EVAL_CALL = [(r"s::(sxy|sx|sy)::eval(?:::<[^>]*>)?\(", r"\1_eval(", "type parameters"), FITS]
FUNCTIONS += [
    dict(name="into_circuit_object", fn="into_circuit_object", file=LIB, title="exactly the circuits whose constraints leave the last power of Y free and whose gates fit the rank become objects, with the metrics measured for them", sig="fn into_circuit_object(circuit: Circ) -> (r: Result<Processed, Error>)", context=OBJECT, transform=[ASSERTS],
         rewrite=[(r"metrics::eval\(", "measure(", "paths"), (r"raw::CircuitAdapter\((\w+)\)", r"\1", "the adapter, which is under its own contract"), (r"R::num_coeffs\(\)", "rank_coeffs()", "the rank"), RANKN], pre="proof { rank(); }",
         spec="ensures r.is_ok() == (measured(circuit).is_ok() && measured(circuit)->Ok_0.num_constraints < 4 * rn() && measured(circuit)->Ok_0.num_gates <= rn()), r.is_ok() ==> r->Ok_0 == (Processed { circuit, metrics: measured(circuit)->Ok_0 }),"),
    dict(name="CircuitObject::sxy", fn="sxy", within=OF, file=LIB, title="the circuit's full evaluation at the points given, under the plan given", sig="impl Processed { fn sxy(&self, x: F, y: F, floor_plan: Plan) -> (r: F)", suffix="}", context=OBJECT, rewrite=EVAL_CALL, spec="requires xy_of(self.circuit, x, y, floor_plan).is_ok() ensures r == xy_of(self.circuit, x, y, floor_plan)->Ok_0,"),
    dict(name="CircuitObject::sx", fn="sx", within=OF, file=LIB, title="the circuit's restriction at x, under the plan given", sig="impl Processed { fn sx(&self, x: F, floor_plan: Plan) -> (r: Poly)", suffix="}", context=OBJECT, rewrite=EVAL_CALL, spec="requires x_of(self.circuit, x, floor_plan).is_ok() ensures r == x_of(self.circuit, x, floor_plan)->Ok_0,"),
    dict(name="CircuitObject::sy", fn="sy", within=OF, file=LIB, title="the circuit's restriction at y, under the plan given", sig="impl Processed { fn sy(&self, y: F, floor_plan: Plan) -> (r: Poly)", suffix="}", context=OBJECT, rewrite=EVAL_CALL, spec="requires y_of(self.circuit, y, floor_plan).is_ok() ensures r == y_of(self.circuit, y, floor_plan)->Ok_0,"),
    dict(name="CircuitObject::constraint_counts", fn="constraint_counts", within=OF, file=LIB, title="the measured gates and constraints, in this order", sig="impl Processed { fn constraint_counts(&self) -> (r: (usize, usize))", suffix="}", context=OBJECT, spec="ensures r == (self.metrics.num_gates, self.metrics.num_constraints),"),
    dict(name="CircuitObject::segment_records", fn="segment_records", within=OF, file=LIB, title="the measured segments", sig="impl Processed { fn segment_records(&self) -> (r: &Segments)", suffix="}", context=OBJECT, spec="ensures *r == self.metrics.segments,"),
]
