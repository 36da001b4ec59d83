"""C12, unbounded: stage masks of every position and length, for every rank."""
import re

from c04 import POLY as GEO
from field import prelude
from verus import ASSERTS, Lost, body_open, close, mask

FILE = "crates/ragu_circuits/src/staging/mask.rs"
ASSUME = [
    "the rank R enters only through n = R::n() >= 1 with 4n representable",
    "sparse::View::build has the dense meaning proved in C07, geosum the one proved in C04; Field::{invert, pow_vartime} are inverse and power",
]
SPEC = """
pub uninterp spec fn rn() -> nat;
pub axiom fn rank() ensures rn() >= 1, 4 * rn() <= usize::MAX;
#[verifier::external_body] fn rank_n() -> (r: usize) ensures r == rn() { unimplemented!() }
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
#[verifier::external_body] fn geosum(r: F, m: usize) -> (result: F) ensures result == geo(r, m as nat) { unimplemented!() }
pub uninterp spec fn finv(a: F) -> F;
pub axiom fn inv_mul(a: F) requires a != fzero() ensures fmul(a, finv(a)) == fone();
impl F {
    #[verifier::external_body] pub fn pow_vartime(&self, e: [u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as nat) { unimplemented!() }
    #[verifier::external_body] pub fn eq_(&self, o: F) -> (r: bool) ensures r == (*self == o) { unimplemented!() }
    #[verifier::external_body] pub fn inverse(&self) -> (r: F) requires *self != fzero() ensures r == finv(*self) { unimplemented!() }
}
pub struct StageMask { pub skip_gates: usize, pub num_gates: usize }
pub enum Error { GateBoundExceeded { limit: usize }, Other }
/// a stage by its numbers: gates before it, values it holds, the same of its parent
pub uninterp spec fn sk() -> nat;
pub uninterp spec fn nv() -> nat;
pub uninterp spec fn parent_sk() -> nat;
pub uninterp spec fn parent_gates() -> nat;
pub axiom fn stage_sizes() ensures sk() >= 1, sk() + nv() + 1 <= usize::MAX, parent_sk() + parent_gates() <= usize::MAX;
pub open spec fn gates_of(v: nat) -> nat { (v + 1) / 2 }
#[verifier::external_body] fn stage_skip() -> (r: usize) ensures r == sk() { unimplemented!() }
#[verifier::external_body] fn stage_values() -> (r: usize) ensures r == nv() { unimplemented!() }
#[verifier::external_body] fn stage_gates() -> (r: usize) ensures r == gates_of(nv()) { unimplemented!() }
#[verifier::external_body] fn parent_skip_() -> (r: usize) ensures r == parent_sk() { unimplemented!() }
#[verifier::external_body] fn parent_gates_() -> (r: usize) ensures r == parent_gates() { unimplemented!() }
#[verifier::external_body] fn ceil_div(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int) { unimplemented!() }
/// what the stage's witness function yields
pub uninterp spec fn honest() -> Seq<F>;
#[verifier::external_body] fn witnessed() -> (r: Result<Vec<F>, Error>) ensures r.is_ok() ==> r->Ok_0@ == honest() { unimplemented!() }
pub struct Cursor { pub s: Vec<F>, pub pos: Ghost<int> }
impl Cursor {
    #[verifier::external_body] fn new(s: Vec<F>) -> (r: Cursor) ensures r.s@ == s@, r.pos@ == 0 { unimplemented!() }
    /// next().unwrap_or(z)
    #[verifier::external_body] fn next_or(&mut self, z: F) -> (r: F) requires old(self).pos@ >= 0 ensures r == (if old(self).pos@ < old(self).s.len() { old(self).s[old(self).pos@] } else { z }), final(self).s@ == old(self).s@,
        final(self).pos@ == (if old(self).pos@ < old(self).s.len() { old(self).pos@ + 1 } else { old(self).pos@ }) { unimplemented!() }
}
pub open spec fn value_at(s: Seq<F>, i: int) -> F { if 0 <= i < s.len() { s[i] } else { fzero() } }
/// the stage polynomial: values on the b and d wires of its own gates, alpha on the system gate's d wire, nothing else
pub open spec fn stage_coeff(alpha: F, vs: Seq<F>, k: int) -> F {
    let (n, s, g) = (rn() as int, sk() as int, gates_of(nv()) as int);
    if n <= k < 2 * n && s <= 2 * n - 1 - k < s + g { value_at(vs, 2 * (2 * n - 1 - k - s)) }
    else if k == 4 * n - 1 { alpha }
    else if 3 * n <= k < 4 * n && s <= 4 * n - 1 - k < s + g { value_at(vs, 2 * (4 * n - 1 - k - s) + 1) }
    else { fzero() }
}
/// C12: the stage's own mask meets the stage polynomial nowhere, so every product of the inner product vanishes
pub proof fn fits_own_mask(m: StageMask, alpha: F, vs: Seq<F>, p: F)
    requires m.inv(), m.skip_gates == sk(), m.num_gates == gates_of(nv())
    ensures forall|k: int| 0 <= k < 4 * rn() ==> fmul(#[trigger] stage_coeff(alpha, vs, k), m.coeff(p, 4 * rn() - 1 - k)) == fzero()
{
    assert forall|k: int| 0 <= k < 4 * rn() implies fmul(#[trigger] stage_coeff(alpha, vs, k), m.coeff(p, 4 * rn() - 1 - k)) == fzero() by {
        let (x, y) = (stage_coeff(alpha, vs, k), m.coeff(p, 4 * rn() - 1 - k));
        mul_zero(x); mul_zero(y); mul_comm(fzero(), y);
    }
}
/// the mask meets every wire outside the reserved range exactly once, with its own power
pub proof fn meets_the_rest(m: StageMask, p: F, k: int)
    requires m.inv(), 0 <= k < 4 * rn(), gate(k) != 0, !(m.skip_gates <= gate(k) < m.skip_gates + m.num_gates)
    ensures m.coeff(p, 4 * rn() - 1 - k) == fpow(p, (4 * rn() - 1 - k) as nat)
{}
/// gate of a coefficient position
pub open spec fn gate(k: int) -> int { let n = rn() as int; if k < n { k } else if k < 2 * n { 2 * n - 1 - k } else if k < 3 * n { k - 2 * n } else { 4 * n - 1 - k } }
/// positions whose wire is not constrained: the system gate and the reserved gates
pub open spec fn masked(g: int, m: int, k: int) -> bool { gate(k) == 0 || g <= gate(k) < g + m }
/// the sum of all constrained positions below hi, as powers of z
pub open spec fn part(z: F, g: int, m: int, hi: nat) -> F decreases hi {
    if hi == 0 { fzero() } else { let k = (hi - 1) as nat; if masked(g, m, k as int) { part(z, g, m, k) } else { fadd(part(z, g, m, k), fpow(z, k)) } }
}
impl StageMask {
    pub open spec fn inv(&self) -> bool { self.skip_gates >= 1 && self.skip_gates + self.num_gates <= rn() }
    /// the mask as a polynomial in z = XY: one power per constrained wire
    pub open spec fn wanted(&self, z: F) -> F { part(z, self.skip_gates as int, self.num_gates as int, 4 * rn()) }
    pub open spec fn coeff(&self, p: F, k: int) -> F { if masked(self.skip_gates as int, self.num_gates as int, k) { fzero() } else { fpow(p, k as nat) } }
}
pub struct View_ { pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
pub open spec fn laid_out(a: Seq<F>, b: Seq<F>, c: Seq<F>, d: Seq<F>, n: int, k: int) -> F {
    if 0 <= k < c.len() { c[k] }
    else if 2 * n - b.len() <= k < 2 * n { b[2 * n - 1 - k] }
    else if 2 * n <= k < 2 * n + a.len() { a[k - 2 * n] }
    else if 4 * n - d.len() <= k < 4 * n { d[4 * n - 1 - k] }
    else { fzero() }
}
#[verifier::external_body] pub struct Polynomial { x: u64 }
impl Polynomial { pub uninterp spec fn dense(&self, k: int) -> F; }
#[verifier::external_body] fn wiring() -> (r: View_) ensures r.a.len() == 0, r.b.len() == 0, r.c.len() == 0, r.d.len() == 0 { unimplemented!() }
pub struct Traced { pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
#[verifier::external_body] fn traced() -> (r: Traced) ensures r.a.len() == 0, r.b.len() == 0, r.c.len() == 0, r.d.len() == 0 { unimplemented!() }
impl Traced {
    /// sparse::View::build from the trace's perspective (C07), which refuses buffers that do not fit
    #[verifier::external_body] fn build(self) -> (r: Polynomial)
        ensures self.a.len() <= rn(), self.b.len() <= rn(), self.c.len() <= rn(), self.d.len() <= rn(), forall|k: int| #[trigger] r.dense(k) == laid_out(self.a@, self.b@, self.c@, self.d@, rn() as int, k) { unimplemented!() }
}
#[verifier::external_body] fn resize(v: &mut Vec<F>, n: usize) requires old(v).len() == 0 ensures final(v)@ == Seq::new(n as nat, |i: int| fzero()) { v.resize(n, F::ZERO) }
impl View_ {
    /// sparse::View::build from the wiring perspective (C07)
    #[verifier::external_body] fn build(self) -> (r: Polynomial) requires self.a.len() <= rn(), self.b.len() <= rn(), self.c.len() <= rn(), self.d.len() <= rn()
        ensures forall|k: int| #[trigger] r.dense(k) == laid_out(self.b@, self.a@, self.d@, self.c@, rn() as int, k) { unimplemented!() }
}
pub proof fn azero(a: F) ensures fadd(fzero(), a) == a { add_comm(a, fzero()); add_zero(a); }
pub proof fn mone(a: F) ensures fmul(fone(), a) == a { mul_comm(a, fone()); mul_one(a); }
pub proof fn nonzero(a: F, b: F) requires a != fzero(), b != fzero() ensures fmul(a, b) != fzero() {
    if fmul(a, b) == fzero() { inv_mul(a); mul_comm(a, finv(a)); mul_assoc(finv(a), a, b); mone(b); mul_zero(finv(a)); }
}
pub proof fn inverse_powers(z: F, k: nat) requires z != fzero() ensures fmul(fpow(z, k), fpow(finv(z), k)) == fone() decreases k {
    if k == 0 { mul_one(fone()); } else {
        let j = (k - 1) as nat; let (a, b, i) = (fpow(z, j), fpow(finv(z), j), finv(z));
        inverse_powers(z, j); inv_mul(z);
        // (a z)(b i) = (a b)(z i)
        mul_assoc(a, z, fmul(b, i)); mul_comm(b, i); mul_assoc(z, i, b); mone(b);
    }
}
/// z^m divided by z^k
pub proof fn lower(z: F, m: nat, k: nat) requires z != fzero(), k <= m ensures fmul(fpow(z, m), fpow(finv(z), k)) == fpow(z, (m - k) as nat) {
    let a = fpow(z, (m - k) as nat);
    pow_add(z, (m - k) as nat, k); assert((m - k) as nat + k == m);
    mul_assoc(a, fpow(z, k), fpow(finv(z), k)); inverse_powers(z, k); mul_one(a);
}
pub proof fn zero_sum(g: int, m: int, hi: nat) requires rn() >= 1 ensures part(fzero(), g, m, hi) == fzero() decreases hi {
    if hi > 0 { let k = (hi - 1) as nat; zero_sum(g, m, k); if k > 0 { mul_zero(fpow(fzero(), (k - 1) as nat)); add_zero(fzero()); } else { assert(masked(g, m, 0)); } }
}
pub open spec fn run(z: F, a: nat, l: nat) -> F { fmul(fpow(z, a), geo(z, l)) }
pub proof fn run_one(z: F, a: nat) ensures run(z, a, 1) == fpow(z, a) { geo_one(z); mul_one(fpow(z, a)); }
pub proof fn open_run(z: F, g: int, m: int, a: nat, l: nat) requires forall|k: int| a <= k < a + l ==> !#[trigger] masked(g, m, k) ensures part(z, g, m, a + l) == fadd(part(z, g, m, a), run(z, a, l)) decreases l {
    if l == 0 { mul_zero(fpow(z, a)); add_zero(part(z, g, m, a)); } else {
        let j = (l - 1) as nat; let p = fpow(z, a);
        open_run(z, g, m, a, j);
        assert(!masked(g, m, (a + j) as int)); assert((a + l - 1) as nat == a + j);
        pow_add(z, a, j); distr(p, geo(z, j), fpow(z, j)); add_assoc(part(z, g, m, a), fmul(p, geo(z, j)), fmul(p, fpow(z, j)));
    }
}
pub proof fn shut_run(z: F, g: int, m: int, a: nat, l: nat) requires forall|k: int| a <= k < a + l ==> #[trigger] masked(g, m, k) ensures part(z, g, m, a + l) == part(z, g, m, a) decreases l {
    if l > 0 { let j = (l - 1) as nat; shut_run(z, g, m, a, j); assert(masked(g, m, (a + j) as int)); assert((a + l - 1) as nat == a + j); }
}
/// geo = part + (u + v) up to hi
pub open spec fn balanced(z: F, g: int, m: int, hi: nat, u: F, v: F) -> bool { geo(z, hi) == fadd(part(z, g, m, hi), fadd(u, v)) }
pub proof fn pass(z: F, g: int, m: int, a: nat, l: nat, u: F, v: F) requires balanced(z, g, m, a, u, v), forall|k: int| a <= k < a + l ==> !#[trigger] masked(g, m, k) ensures balanced(z, g, m, a + l, u, v) {
    let (p, w, t) = (part(z, g, m, a), fadd(u, v), run(z, a, l));
    open_run(z, g, m, a, l); geo_add(z, a, l);
    add_assoc(p, w, t); add_comm(w, t); add_assoc(p, t, w);
}
pub proof fn drop_u(z: F, g: int, m: int, a: nat, l: nat, u: F, v: F) requires balanced(z, g, m, a, u, v), forall|k: int| a <= k < a + l ==> #[trigger] masked(g, m, k) ensures balanced(z, g, m, a + l, fadd(u, run(z, a, l)), v) {
    let (p, t) = (part(z, g, m, a), run(z, a, l));
    shut_run(z, g, m, a, l); geo_add(z, a, l);
    add_assoc(p, fadd(u, v), t); add_assoc(u, v, t); add_comm(v, t); add_assoc(u, t, v);
}
pub proof fn drop_v(z: F, g: int, m: int, a: nat, l: nat, u: F, v: F) requires balanced(z, g, m, a, u, v), forall|k: int| a <= k < a + l ==> #[trigger] masked(g, m, k) ensures balanced(z, g, m, a + l, u, fadd(v, run(z, a, l))) {
    let (p, t) = (part(z, g, m, a), run(z, a, l));
    shut_run(z, g, m, a, l); geo_add(z, a, l);
    add_assoc(p, fadd(u, v), t); add_assoc(u, v, t);
}
pub proof fn factor_u(z2: F, p: F) ensures fadd(fadd(fadd(fone(), p), z2), fmul(z2, p)) == fmul(fadd(z2, fone()), fadd(p, fone())) {
    // (z2 + 1)(p + 1) = z2 p + z2 + p + 1
    let s = fadd(z2, fone());
    distr(s, p, fone()); mul_one(s);
    mul_comm(s, p); distr(p, z2, fone()); mul_one(p); mul_comm(p, z2);
    let zp = fmul(z2, p);
    // (zp + p) + (z2 + 1)
    add_comm(fadd(zp, p), s);
    // (z2 + 1) + (zp + p) = ((z2 + 1) + p) + zp
    add_comm(zp, p); add_assoc(s, p, zp);
    // (z2 + 1) + p = (1 + p) + z2
    add_assoc(z2, fone(), p); add_comm(z2, fadd(fone(), p));
}
pub proof fn factor_v(z2: F, a: F, b: F, g: F) ensures fadd(fadd(fadd(fmul(a, g), fmul(b, g)), fmul(fmul(z2, a), g)), fmul(fmul(z2, b), g)) == fmul(fmul(fadd(fone(), z2), fadd(a, b)), g) {
    let s = fadd(a, b); let w = fmul(s, g);
    mul_comm(s, g); distr(g, a, b); mul_comm(g, a); mul_comm(g, b);
    // w = ag + bg;   z2 w = z2 a g + z2 b g
    distr(z2, fmul(a, g), fmul(b, g)); mul_assoc(z2, a, g); mul_assoc(z2, b, g);
    let x = fmul(fmul(z2, a), g); let y = fmul(fmul(z2, b), g);
    add_assoc(w, x, y);
    // w + z2 w = (1 + z2) w
    let o = fadd(fone(), z2);
    mul_comm(o, w); distr(w, fone(), z2); mul_one(w); mul_comm(w, z2);
    mul_assoc(o, s, g);
}
/// the closed form of the mask
pub proof fn closed_form(z: F, g: nat, m: nat)
    requires z != fzero(), g >= 1, g + m <= rn(), rn() >= 1
    ensures ({
        let n = rn(); let (z2, i) = (fpow(z, 2 * n), finv(z));
        part(z, g as int, m as int, 4 * n) == fsub(fsub(geo(z, 4 * n), fmul(fadd(z2, fone()), fadd(fmul(z2, i), fone()))),
            fmul(fmul(fadd(fone(), z2), fadd(fpow(z, g), fmul(z2, fpow(i, g + m)))), geo(z, m)))
    })
{
    let n = rn(); let (z2, i) = (fpow(z, 2 * n), finv(z)); let (gi, mi) = (g as int, m as int); let e = geo(z, m);
    let p = fmul(z2, i); let a = fpow(z, g); let b = fmul(z2, fpow(i, g + m));
    pow_one(i); lower(z, 2 * n, 1); lower(z, 2 * n, g + m);
    let h = (2 * n - g - m) as nat; let q = (2 * n - 1) as nat;
    let (u0, v0) = (fzero(), fzero());
    add_zero(fzero());
    assert(balanced(z, gi, mi, 0, u0, v0));
    drop_u(z, gi, mi, 0, 1, u0, v0); let u1 = fadd(u0, run(z, 0, 1)); run_one(z, 0); azero(fone()); assert(u1 == fone());
    pass(z, gi, mi, 1, (g - 1) as nat, u1, v0); assert(1 + (g - 1) as nat == g);
    drop_v(z, gi, mi, g, m, u1, v0); let v1 = fadd(v0, run(z, g, m)); azero(run(z, g, m)); assert(v1 == fmul(a, e));
    pass(z, gi, mi, g + m, (n - g - m) as nat, u1, v1); assert(g + m + (n - g - m) as nat == n);
    pass(z, gi, mi, n, (n - g - m) as nat, u1, v1); assert(n + (n - g - m) as nat == h);
    drop_v(z, gi, mi, h, m, u1, v1); let v2 = fadd(v1, run(z, h, m)); assert(v2 == fadd(fmul(a, e), fmul(b, e)));
    pass(z, gi, mi, h + m, (g - 1) as nat, u1, v2); assert(h + m + (g - 1) as nat == q);
    if n == 1 { }
    drop_u(z, gi, mi, q, 1, u1, v2); let u2 = fadd(u1, run(z, q, 1)); run_one(z, q); assert(u2 == fadd(fone(), p)); assert(q + 1 == 2 * n);
    drop_u(z, gi, mi, 2 * n, 1, u2, v2); let u3 = fadd(u2, run(z, 2 * n, 1)); run_one(z, 2 * n); assert(u3 == fadd(fadd(fone(), p), z2));
    pass(z, gi, mi, 2 * n + 1, (g - 1) as nat, u3, v2); assert(2 * n + 1 + (g - 1) as nat == 2 * n + g);
    drop_v(z, gi, mi, 2 * n + g, m, u3, v2); let v3 = fadd(v2, run(z, 2 * n + g, m)); pow_add(z, 2 * n, g);
    pass(z, gi, mi, 2 * n + g + m, (n - g - m) as nat, u3, v3); assert(2 * n + g + m + (n - g - m) as nat == 3 * n);
    pass(z, gi, mi, 3 * n, (n - g - m) as nat, u3, v3); assert(3 * n + (n - g - m) as nat == 2 * n + h);
    drop_v(z, gi, mi, 2 * n + h, m, u3, v3); let v4 = fadd(v3, run(z, 2 * n + h, m)); pow_add(z, 2 * n, h);
    pass(z, gi, mi, 2 * n + h + m, (g - 1) as nat, u3, v4); assert(2 * n + h + m + (g - 1) as nat == 2 * n + q);
    drop_u(z, gi, mi, 2 * n + q, 1, u3, v4); let u4 = fadd(u3, run(z, 2 * n + q, 1)); run_one(z, 2 * n + q); pow_add(z, 2 * n, q); assert(2 * n + q + 1 == 4 * n);
    assert(u4 == fadd(fadd(fadd(fone(), p), z2), fmul(z2, p)));
    assert(v4 == fadd(fadd(fadd(fmul(a, e), fmul(b, e)), fmul(fmul(z2, a), e)), fmul(fmul(z2, b), e)));
    factor_u(z2, p); factor_v(z2, a, b, e);
    let (x, y) = (part(z, gi, mi, 4 * n), fadd(u4, v4));
    // geo = x + (u + v)  =>  x = (geo - u) - v
    add_assoc(x, y, fneg(y)); add_neg(y); add_zero(x);
    neg_add(u4, v4); add_assoc(geo(z, 4 * n), fneg(u4), fneg(v4));
}
"""
NESTED = """
#[verifier::external_body] fn global(xy: F, xy_2n: F, xy_inv: F, n: usize) -> (r: F) requires n == rn() ensures r == fsub(geo(xy, 4 * rn()), fmul(fadd(xy_2n, fone()), fadd(fmul(xy_2n, xy_inv), fone()))) { unimplemented!() }
#[verifier::external_body] fn notch(xy: F, xy_2n: F, xy_inv: F, g: usize, m: usize) -> (r: F) requires g + m <= usize::MAX ensures r == fmul(fmul(fadd(fone(), xy_2n), fadd(fpow(xy, g as nat), fmul(xy_2n, fpow(xy_inv, (g + m) as nat)))), geo(xy, m as nat)) { unimplemented!() }
"""
PROJECT = """impl StageMask { #[verifier::external_body] fn project(&self, p: F) -> (r: Polynomial) requires self.inv() ensures forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] r.dense(k) == self.coeff(p, k) { unimplemented!() } }
"""
PRELUDE = prelude(GEO + SPEC).replace("verus! {\n", "verus! {\nglobal size_of usize == 8;\n", 1)


def hoist(body):
    """Nested functions are left out: each is under its own contract."""
    while True:
        m = mask(body)
        h = re.search(r"\bfn\s+\w+\s*<[^>]*>\s*\(", m)
        if not h:
            return body
        o = body_open(m, h.end() - 1)
        body = body[:h.start()] + body[close(m, o) + 1:]


def witness(body):
    """`let values = { .. run the witness function .. };`"""
    m = mask(body)
    h = re.search(r"let (?:mut )?(\w+) = \{", m)
    if not h:
        raise Lost("the witness block was not found")
    c = close(m, h.end() - 1)
    if "witness" not in body[h.end():c]:
        raise Lost("the witness block was not found")
    return body[:h.start()] + f"let {h[1]} = witnessed()?" + body[c + 1:]


STAGE = "crates/ragu_circuits/src/staging/mod.rs"
STAGED = [(r"Self::skip_gates\(\)", "stage_skip()", "the stage's numbers"), (r"Self::num_gates\(\)", "stage_gates()", "the stage's numbers"), (r"Self::values\(\)", "stage_values()", "the stage's numbers")]
BOXED = [(r"BondingObject::new\(Box::new\((.*?)\?,?\s*\)\)", r"\1?", "the wrapper of the mask"), (r"mask::StageMask", "StageMask", "the type by name")]
MASKS = """impl StageMask {
    #[verifier::external_body] pub fn new(skip_gates: usize, num_gates: usize) -> (r: Result<StageMask, Error>) requires skip_gates + num_gates <= usize::MAX
        ensures skip_gates >= 1, r.is_ok() == (skip_gates + num_gates <= rn()), match r { Ok(v) => v.inv() && v.skip_gates == skip_gates && v.num_gates == num_gates, Err(e) => true } { unimplemented!() }
    #[verifier::external_body] pub fn new_final(skip_gates: usize) -> (r: Result<StageMask, Error>)
        ensures skip_gates >= 1, r.is_ok() == (skip_gates <= rn()), match r { Ok(v) => v.inv() && v.skip_gates == skip_gates && v.skip_gates + v.num_gates == rn(), Err(e) => true } { unimplemented!() }
}
"""


def ROWS(l):
    t = "".join(f"$view.{w}.len() == {l}, " for w in "abcd")
    return t + "".join(f"forall|i: int| 0 <= i < $view.{w}.len() ==> #[trigger] $view.{w}[i] == fzero(), " for w in "ac") + "$view.d[0] == alpha,"


HOIST = (hoist, "nested functions are verified on their own and called by contract")
RANK = (r"R::n\(\)", "rank_n()", "the rank")
SELF = [(r"_marker: core::marker::PhantomData,?", "", "the phantom field"), (r"\bSelf \{", "StageMask {", "the type by name"), (r"ragu_core::Error::", "Error::", "the error by name")]
ARR = "view.a.len() == n, view.b.len() == n, view.c.len() == n, view.d.len() == n, n == rn(), n >= 1, 4 * n <= usize::MAX"


def filled(w, lo, hi, e):
    return f"forall|i: int| {lo} <= i < {hi} ==> #[trigger] view.{w}[i] == fpow(p, ({e}) as nat)"


D, A, B, C = ("d", "i"), ("a", "2 * n - 1 - i"), ("b", "2 * n + i"), ("c", "4 * n - 1 - i")


def done(*ws):
    return ", ".join(filled(w, 0, "n", e) for w, e in ws)


def loops():
    out = []
    for k, (w, e) in enumerate((D, A, B, C)):
        up = k in (0, 2)
        x = f"it{k}.index()"
        lo, hi = ("0", x) if up else (f"n - {x}", "n as int")
        inv = f"invariant {ARR}, $cur == fpow(p, ({k} * n + {x}) as nat), it{k}.seq().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] it{k}.seq()[i] == {'i' if up else 'n - 1 - i'}, {filled(w, lo, hi, e)}"
        prev = [D, A, B, C][:k]
        if prev:
            inv += ", " + done(*prev)
        out.append(dict(inv=inv + ",", start=f"let ghost x_ = {x} as int; proof {{ assert(({k} * n + x_ + 1 - 1) as nat == {k} * n + x_); }}"))
    inv = f"invariant {ARR}, self.inv(), it4.seq().len() == self.num_gates, forall|i: int| 0 <= i < self.num_gates ==> #[trigger] it4.seq()[i] == i"
    for w, e in (D, A, B, C):
        inv += f", forall|i: int| 0 <= i < n ==> #[trigger] view.{w}[i] == (if i == 0 || self.skip_gates <= i < self.skip_gates + it4.index() {{ fzero() }} else {{ fpow(p, ({e}) as nat) }})"
    out.append(dict(inv=inv + ","))
    return out


FUNCTIONS = [
    dict(name="StageMask::new", fn="new", file=FILE, title="refuses an empty prefix and lengths that do not fit", sig="impl StageMask { pub fn new(skip_gates: usize, num_gates: usize) -> (r: Result<StageMask, Error>)", suffix="}",
         spec="requires skip_gates + num_gates <= usize::MAX ensures skip_gates >= 1, r.is_ok() == (skip_gates + num_gates <= rn()), match r { Ok(v) => v.inv() && v.skip_gates == skip_gates && v.num_gates == num_gates, Err(e) => e == (Error::GateBoundExceeded { limit: rn() as usize }) },",
         transform=[ASSERTS], rewrite=[RANK] + SELF, pre="proof { rank(); }"),
    dict(name="StageMask::new_final", fn="new_final", file=FILE, title="the rest of the gates", sig="impl StageMask { pub fn new_final(skip_gates: usize) -> (r: Result<StageMask, Error>)", suffix="}",
         spec="ensures skip_gates >= 1, r.is_ok() == (skip_gates <= rn()), match r { Ok(v) => v.inv() && v.skip_gates == skip_gates && v.skip_gates + v.num_gates == rn(), Err(e) => e == (Error::GateBoundExceeded { limit: rn() as usize }) },",
         transform=[ASSERTS], rewrite=[RANK] + SELF, pre="proof { rank(); }"),
    dict(name="StageMask::project", fn="project", file=FILE, title="one power per constrained wire and zero elsewhere, for every rank, position and length", sig="impl StageMask { pub fn project(&self, p: F) -> (r: Polynomial)", suffix="}", rlimit=120,
         spec="requires self.inv() ensures forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] r.dense(k) == self.coeff(p, k),",
         rewrite=[RANK, (r"sparse::View::<F, R, _>::wiring\(\)", "wiring()", "the empty view"), (r"(view\.\w)\.resize\((\w+), F::ZERO\)", r"resize(&mut \1, \2)", "Vec::resize of an empty vector")],
         names={"cur": r"let mut (\w+) = F::ONE"}, pre="proof { rank(); }", loops=loops()),
    dict(name="global", file=FILE, title="all powers but those of the system gate", sig="pub fn global(xy: F, xy_2n: F, xy_inv: F, n: usize) -> (r: F)",
         spec="requires n == rn() ensures r == fsub(geo(xy, 4 * rn()), fmul(fadd(xy_2n, fone()), fadd(fmul(xy_2n, xy_inv), fone()))),", pre="proof { rank(); assert(n << 2 == 4 * n) by (bit_vector) requires n <= 0x3fff_ffff_ffff_ffffusize; }"),
    dict(name="notch", file=FILE, title="the powers of the reserved gates", sig="pub fn notch(xy: F, xy_2n: F, xy_inv: F, g: usize, m: usize) -> (r: F)",
         spec="requires g + m <= usize::MAX ensures r == fmul(fmul(fadd(fone(), xy_2n), fadd(fpow(xy, g as nat), fmul(xy_2n, fpow(xy_inv, (g + m) as nat)))), geo(xy, m as nat)),"),
    dict(name="StageMask::sxy", fn="sxy", file=FILE, title="the sum of one power of xy per constrained wire, for every rank, position, length and point", sig="impl StageMask { pub fn sxy(&self, x: F, y: F) -> (r: F)", suffix="}", context=NESTED,
         spec="requires self.inv() ensures r == self.wanted(fmul(x, y)),", transform=[HOIST],
         rewrite=[RANK, (r"\b(\w+) == F::ZERO", r"\1.eq_(F::ZERO)", "equality of field elements"), (r"\.invert\(\)\.expect\([^)]*\)", ".inverse()", "inversion, which must not meet zero")],
         pre="""proof {
             rank(); let z = fmul(x, y);
             mul_zero(x); mul_comm(fzero(), y); mul_zero(y);
             if x == fzero() || y == fzero() { zero_sum(self.skip_gates as int, self.num_gates as int, 4 * rn()); }
             else { nonzero(x, y); closed_form(z, self.skip_gates as nat, self.num_gates as nat); }
         }"""),
    dict(name="StageMask::sx", fn="sx", file=FILE, title="coefficient k in Y is x^k or nothing", sig="impl StageMask { pub fn sx(&self, x: F) -> (r: Polynomial)", suffix="}", context=PROJECT,
         spec="requires self.inv() ensures forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] r.dense(k) == self.coeff(x, k),"),
    dict(name="StageMask::sy", fn="sy", file=FILE, title="coefficient k in X is y^k or nothing", sig="impl StageMask { pub fn sy(&self, y: F) -> (r: Polynomial)", suffix="}", context=PROJECT,
         spec="requires self.inv() ensures forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] r.dense(k) == self.coeff(y, k),"),
    dict(name="StageMask::constraint_counts", fn="constraint_counts", file=FILE, title="n gates, one constraint per coefficient but the last", sig="impl StageMask { pub fn constraint_counts(&self) -> (r: (usize, usize))", suffix="}",
         spec="ensures r.0 == rn(), r.1 == 4 * rn() - 1,", rewrite=[RANK], pre="proof { rank(); }"),
    dict(name="Stage::skip_gates", fn="skip_gates", file=STAGE, title="the parent's gates come first", sig="pub fn skip_gates_() -> (r: usize)", spec="ensures r == parent_sk() + parent_gates(),",
         rewrite=[(r"Self::Parent::skip_gates\(\)", "parent_skip_()", "the parent stage"), (r"Self::Parent::num_gates\(\)", "parent_gates_()", "the parent stage")], pre="proof { stage_sizes(); }"),
    dict(name="StageExt::num_gates", fn="num_gates", file=STAGE, title="two values per gate, rounded up", sig="pub fn num_gates_() -> (r: usize)", spec="ensures r == gates_of(nv()),",
         rewrite=[(r"Self::values\(\)\.div_ceil\(([^()]*)\)", r"ceil_div(stage_values(), \1)", "usize::div_ceil")], pre="proof { stage_sizes(); }"),
    dict(name="StageExt::rx_configured", fn="rx_configured", file=STAGE, title="values on the b and d wires of the stage's own gates, alpha on the system gate, zero elsewhere; too many values are refused",
         sig="pub fn rx_configured(alpha: F) -> (r: Result<Polynomial, Error>)",
         spec="ensures honest().len() > nv() ==> r.is_err(), r.is_ok() ==> sk() + gates_of(nv()) <= rn() && forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] r->Ok_0.dense(k) == stage_coeff(alpha, honest(), k),",
         transform=[ASSERTS, (witness, "the stage's witness function is an arbitrary vector of values")],
         rewrite=[(r"(\w+)\.into_iter\(\)", r"Cursor::new(\1)", "an iterator over the values"), (r"\.next\(\)\s*\.unwrap_or\(", ".next_or(", "the next value or zero"),
                  (r"sparse::View::trace\(\)", "traced()", "the empty view"), (r"\w+\.\w\.reserve_exact\([^;]*\);", "", "capacity"), (r"ragu_core::Error::", "Error::", "the error by name")] + STAGED[:3],
         names={"view": r"let mut (\w+) = sparse::View", "it": r"let mut (\w+) = values\.into_iter"}, pre="let ghost hv_: Seq<F> = honest(); proof { stage_sizes(); rank(); }",
         loops=[dict(inv="invariant sk() >= 1, it0.seq().len() == sk() - 1, $it.s@ == hv_, $it.pos@ == 0, " + ROWS("1 + it0.index()") + " forall|i: int| 1 <= i < $view.b.len() ==> #[trigger] $view.b[i] == fzero(), forall|i: int| 1 <= i < $view.d.len() ==> #[trigger] $view.d[i] == fzero(), $view.b[0] == fzero(),"),
                dict(inv="invariant sk() >= 1, sk() + nv() + 1 <= usize::MAX, it1.seq().len() == gates_of(nv()), $it.s@ == hv_, $it.pos@ == (if 2 * it1.index() <= hv_.len() { 2 * it1.index() } else { hv_.len() as int }), " + ROWS("sk() + it1.index()") + """
                     forall|i: int| 0 <= i < $view.b.len() ==> #[trigger] $view.b[i] == (if i < sk() { fzero() } else { value_at(hv_, 2 * (i - sk())) }), forall|i: int| 1 <= i < $view.d.len() ==> #[trigger] $view.d[i] == (if i < sk() { fzero() } else { value_at(hv_, 2 * (i - sk()) + 1) }),""")]),
    dict(name="StageExt::mask", fn="mask", file=STAGE, title="the mask of the stage's own gates", sig="pub fn mask_() -> (r: Result<StageMask, Error>)", context=MASKS, rewrite=BOXED + STAGED[:2], pre="proof { stage_sizes(); }",
         spec="ensures r.is_ok() == (sk() + gates_of(nv()) <= rn()), r.is_ok() ==> r->Ok_0.inv() && r->Ok_0.skip_gates == sk() && r->Ok_0.num_gates == gates_of(nv()),"),
    dict(name="StageExt::final_mask", fn="final_mask", nth=0, within=r"pub trait StageExt", file=STAGE, title="the mask of all gates after the stage", sig="pub fn final_mask_() -> (r: Result<StageMask, Error>)", context=MASKS, rewrite=BOXED + STAGED[:2], pre="proof { stage_sizes(); }",
         spec="ensures r.is_ok() == (sk() + gates_of(nv()) <= rn()), r.is_ok() ==> r->Ok_0.inv() && r->Ok_0.skip_gates == sk() + gates_of(nv()) && r->Ok_0.skip_gates + r->Ok_0.num_gates == rn(),"),
    dict(name="StageExt::generator_index_for_b", fn="generator_index_for_b", file=STAGE, title="the position of the stage's b wires", sig="pub fn generator_index_for_b(coefficient_index: usize) -> (r: usize)", transform=[ASSERTS], rewrite=[RANK] + STAGED[:2], pre="proof { stage_sizes(); rank(); }",
         spec="requires sk() + gates_of(nv()) <= rn() ensures coefficient_index < gates_of(nv()), rn() <= r < 2 * rn(), gate(r as int) == sk() + coefficient_index,"),
]
