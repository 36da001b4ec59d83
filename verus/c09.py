"""C09, unbounded: what a trace contains and where, the polynomial t in all its forms, k(y), and the identity itself."""
import re

from c08 import RANK_, RANKN
from c19 import BUFFER, FUNCTIONS as C19
from field import prelude
from verus import ASSERTS, ENUMERATES, Lost, close, mask, split_args, unbrace

TRACE = "crates/ragu_circuits/src/trace.rs"
POLY = "crates/ragu_circuits/src/polynomials/mod.rs"
TXZ = "crates/ragu_circuits/src/polynomials/txz.rs"
RAW = "crates/ragu_circuits/src/raw.rs"
KY = "crates/ragu_circuits/src/ky.rs"

ASSUME = [
    "Element::{mul, add, square, negate, invert_with} compute what C13 proves of them; sparse::View::build has the dense meaning proved in C07",
    "the threads of a traced circuit deliver their segments (mpsc, rayon); sort_unstable_by sorts",
]

PRELUDE = prelude("#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }\n").replace("verus! {\n", "verus! {\nglobal size_of usize == 8;\n", 1)

SUMS = """
pub proof fn zmul(x: F) ensures fmul(fzero(), x) == fzero() { mul_comm(fzero(), x); mul_zero(x); }
pub proof fn azero(a: F) ensures fadd(fzero(), a) == a { add_comm(a, fzero()); add_zero(a); }
pub proof fn negone(a: F) ensures fmul(a, fneg(fone())) == fneg(a) { neg_mul(a, fone()); mul_one(a); }
pub proof fn neg_add(a: F, b: F) ensures fneg(fadd(a, b)) == fadd(fneg(a), fneg(b)) { let m = fneg(fone()); let s = fadd(a, b); mul_comm(s, m); distr(m, a, b); mul_comm(a, m); mul_comm(b, m); negone(a); negone(b); negone(s); }
pub proof fn neg_left(a: F, b: F) ensures fmul(fneg(a), b) == fneg(fmul(a, b)) { mul_comm(fneg(a), b); neg_mul(b, a); mul_comm(a, b); }
pub proof fn neg_zero() ensures fneg(fzero()) == fzero() { add_neg(fzero()); azero(fneg(fzero())); }
pub proof fn distl(a: F, b: F, c: F) ensures fmul(fadd(a, b), c) == fadd(fmul(a, c), fmul(b, c)) { mul_comm(fadd(a, b), c); distr(c, a, b); mul_comm(a, c); mul_comm(b, c); }
pub proof fn swap4(a: F, b: F, c: F, d: F) ensures fadd(fadd(a, b), fadd(c, d)) == fadd(fadd(a, c), fadd(b, d)) { add_assoc(a, b, fadd(c, d)); add_assoc(b, c, d); add_comm(b, c); add_assoc(c, b, d); add_assoc(a, c, fadd(b, d)); }
pub open spec fn sum(f: spec_fn(int) -> F, n: nat) -> F decreases n { if n == 0 { fzero() } else { fadd(sum(f, (n - 1) as nat), f(n - 1)) } }
pub proof fn sum_ext(f: spec_fn(int) -> F, g: spec_fn(int) -> F, n: nat) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures sum(f, n) == sum(g, n) decreases n { if n > 0 { sum_ext(f, g, (n - 1) as nat); assert(f(n - 1) == g(n - 1)); } }
pub proof fn sum_add(f: spec_fn(int) -> F, g: spec_fn(int) -> F, n: nat) ensures sum(|i: int| fadd(f(i), g(i)), n) == fadd(sum(f, n), sum(g, n)) decreases n { if n == 0 { add_zero(fzero()); } else { sum_add(f, g, (n - 1) as nat); swap4(sum(f, (n - 1) as nat), sum(g, (n - 1) as nat), f(n - 1), g(n - 1)); } }
pub proof fn sum_scale(x: F, f: spec_fn(int) -> F, n: nat) ensures sum(|i: int| fmul(x, f(i)), n) == fmul(x, sum(f, n)) decreases n { if n == 0 { mul_zero(x); } else { sum_scale(x, f, (n - 1) as nat); distr(x, sum(f, (n - 1) as nat), f(n - 1)); } }
pub proof fn sum_neg(f: spec_fn(int) -> F, n: nat) ensures sum(|i: int| fneg(f(i)), n) == fneg(sum(f, n)) decreases n { if n == 0 { neg_zero(); } else { sum_neg(f, (n - 1) as nat); neg_add(sum(f, (n - 1) as nat), f(n - 1)); } }
pub proof fn sum_split(f: spec_fn(int) -> F, m: nat, n: nat) ensures sum(f, m + n) == fadd(sum(f, m), sum(|i: int| f(m + i), n)) decreases n {
    if n == 0 { add_zero(sum(f, m)); } else { sum_split(f, m, (n - 1) as nat); assert((m + n - 1) as nat == m + (n - 1) as nat); add_assoc(sum(f, m), sum(|i: int| f(m + i), (n - 1) as nat), f(m + n - 1)); }
}
pub proof fn sum_front(f: spec_fn(int) -> F, n: nat) requires n > 0 ensures sum(f, n) == fadd(f(0), sum(|i: int| f(i + 1), (n - 1) as nat)) {
    let m = (n - 1) as nat; sum_split(f, 1, m); assert(1 + m == n); assert(sum(f, 1) == f(0)) by { assert(sum(f, 0) == fzero()); azero(f(0)); assert((1 - 1) as nat == 0); }
    sum_ext(|i: int| f(1 + i), |i: int| f(i + 1), m);
}
pub proof fn sum_rev(f: spec_fn(int) -> F, n: nat) ensures sum(|i: int| f(n - 1 - i), n) == sum(f, n) decreases n {
    if n > 0 {
        let m = (n - 1) as nat; let g = |i: int| f(n - 1 - i);
        sum_front(g, n); sum_rev(f, m);
        sum_ext(|i: int| g(i + 1), |i: int| f(m - 1 - i), m);
        add_comm(f(n - 1), sum(f, m));
    }
}
"""
# t(X, Z) = - sum over j < n of x^(4n-1-j) (z^(2n-1-j) + z^(2n+j))
T = SUMS + RANK_ + """
pub open spec fn pair(z: F, j: int) -> F { fadd(fpow(z, pa(j)), fpow(z, pb(j))) }
pub open spec fn t_at(x: F, z: F) -> F { fneg(sum(|j: int| fmul(fpow(x, pc(j)), pair(z, j)), rn())) }
pub open spec fn geo(q: F, m: nat) -> F { sum(|j: int| fpow(q, j as nat), m) }
pub proof fn pow_mul(x: F, y: F, k: nat) ensures fpow(fmul(x, y), k) == fmul(fpow(x, k), fpow(y, k)) decreases k {
    if k == 0 { mul_one(fone()); } else { let (p, q) = (fpow(x, (k - 1) as nat), fpow(y, (k - 1) as nat)); pow_mul(x, y, (k - 1) as nat); mul_assoc(p, q, fmul(x, y)); mul_comm(x, y); mul_assoc(q, y, x); mul_comm(fmul(q, y), x); mul_assoc(p, x, fmul(q, y)); }
}
/// doubling the number of terms
pub proof fn geo_double(q: F, m: nat) ensures geo(q, 2 * m) == fadd(geo(q, m), fmul(geo(q, m), fpow(q, m))) {
    let f = |j: int| fpow(q, j as nat);
    sum_split(f, m, m); assert(m + m == 2 * m);
    sum_scale(fpow(q, m), f, m);
    assert forall|i: int| 0 <= i < m implies #[trigger] fmul(fpow(q, m), f(i)) == f(m + i) by { pow_add(q, m, i as nat); assert(m + i as nat == (m + i) as nat); }
    sum_ext(|i: int| f(m + i), |i: int| fmul(fpow(q, m), f(i)), m);
    mul_comm(fpow(q, m), geo(q, m));
}
/// the two geometric sums of t
pub proof fn t_left(x: F, xi: F, z: F) requires fmul(x, xi) == fone() ensures fmul(fmul(fpow(x, pc(0)), fpow(z, pb(0))), geo(fmul(xi, z), rn())) == sum(|j: int| fmul(fpow(x, pc(j)), fpow(z, pb(j))), rn()) {
    rank(); let n = rn(); let q = fmul(xi, z); let c = fmul(fpow(x, pc(0)), fpow(z, pb(0))); let f = |j: int| fpow(q, j as nat); let g = |j: int| fmul(fpow(x, pc(j)), fpow(z, pb(j)));
    sum_scale(c, f, n);
    assert forall|j: int| 0 <= j < n implies #[trigger] fmul(c, f(j)) == g(j) by {
        let k = j as nat; let (x0, z0, a, b) = (fpow(x, pc(0)), fpow(z, pb(0)), fpow(xi, k), fpow(z, k));
        pow_mul(xi, z, k); downs(x, xi, pc(0), k); pow_add(z, pb(0), k); assert((pc(0) - k) as nat == pc(j)); assert(pb(0) + k == pb(j));
        mul_assoc(x0, z0, fmul(a, b)); mul_assoc(z0, a, b); mul_comm(z0, a); mul_assoc(a, z0, b); mul_assoc(x0, a, fmul(z0, b));
    }
    sum_ext(|j: int| fmul(c, f(j)), g, n);
}
pub proof fn t_right(x: F, xi: F, z: F, zi: F) requires fmul(x, xi) == fone(), fmul(z, zi) == fone() ensures fmul(fmul(fmul(fpow(x, pc(0)), fpow(z, pb(0))), geo(fmul(xi, zi), rn())), zi) == sum(|j: int| fmul(fpow(x, pc(j)), fpow(z, pa(j))), rn()) {
    rank(); let n = rn(); let q = fmul(xi, zi); let c = fmul(fpow(x, pc(0)), fpow(z, pb(0))); let e = fmul(c, zi); let f = |j: int| fpow(q, j as nat); let g = |j: int| fmul(fpow(x, pc(j)), fpow(z, pa(j)));
    sum_scale(e, f, n); mul_assoc(c, geo(q, n), zi); mul_comm(geo(q, n), zi); mul_assoc(c, zi, geo(q, n));
    mul_assoc(fpow(x, pc(0)), fpow(z, pb(0)), zi); down(z, zi, pb(0)); assert((pb(0) - 1) as nat == pa(0));
    assert forall|j: int| 0 <= j < n implies #[trigger] fmul(e, f(j)) == g(j) by {
        let k = j as nat; let (x0, z0, a, b) = (fpow(x, pc(0)), fpow(z, pa(0)), fpow(xi, k), fpow(zi, k));
        pow_mul(xi, zi, k); downs(x, xi, pc(0), k); downs(z, zi, pa(0), k); assert((pc(0) - k) as nat == pc(j)); assert((pa(0) - k) as nat == pa(j));
        mul_assoc(x0, z0, fmul(a, b)); mul_assoc(z0, a, b); mul_comm(z0, a); mul_assoc(a, z0, b); mul_assoc(x0, a, fmul(z0, b));
    }
    sum_ext(|j: int| fmul(e, f(j)), g, n);
}
/// C09: the value computed from the two sums is t(x, z)
pub proof fn t_value(x: F, xi: F, z: F, zi: F) requires fmul(x, xi) == fone(), fmul(z, zi) == fone()
    ensures ({ let c = fmul(fpow(x, pc(0)), fpow(z, pb(0))); fneg(fadd(fmul(c, geo(fmul(xi, z), rn())), fmul(fmul(c, geo(fmul(xi, zi), rn())), zi))) == t_at(x, z) })
{
    t_left(x, xi, z); t_right(x, xi, z, zi);
    let l = |j: int| fmul(fpow(x, pc(j)), fpow(z, pb(j))); let r = |j: int| fmul(fpow(x, pc(j)), fpow(z, pa(j))); let g = |j: int| fmul(fpow(x, pc(j)), pair(z, j));
    sum_add(l, r, rn());
    assert forall|j: int| 0 <= j < rn() implies #[trigger] fadd(l(j), r(j)) == g(j) by { let p = fpow(x, pc(j)); distr(p, fpow(z, pa(j)), fpow(z, pb(j))); add_comm(l(j), r(j)); }
    sum_ext(|j: int| fadd(l(j), r(j)), g, rn());
}
/// C09: the coefficients of t(X, z), at x
pub proof fn tz_at(c: Seq<F>, x: F, z: F) requires c.len() == rn(), forall|i: int| 0 <= i < rn() ==> #[trigger] c[i] == fneg(pair(z, i)) ensures sum(|i: int| fmul(c[i], fpow(x, pc(i))), rn()) == t_at(x, z) {
    let g = |j: int| fmul(fpow(x, pc(j)), pair(z, j)); sum_neg(g, rn());
    assert forall|i: int| 0 <= i < rn() implies #[trigger] fmul(c[i], fpow(x, pc(i))) == fneg(g(i)) by { neg_left(pair(z, i), fpow(x, pc(i))); mul_comm(pair(z, i), fpow(x, pc(i))); }
    sum_ext(|i: int| fmul(c[i], fpow(x, pc(i))), |i: int| fneg(g(i)), rn());
}
/// C09: the coefficients of t(x, Z), at z
pub proof fn tx_at(a: Seq<F>, b: Seq<F>, x: F, z: F) requires a.len() == rn(), b == a, forall|i: int| 0 <= i < rn() ==> #[trigger] a[i] == fneg(fpow(x, pc(i))) ensures sum(|i: int| fadd(fmul(a[i], fpow(z, pa(i))), fmul(b[i], fpow(z, pb(i)))), rn()) == t_at(x, z) {
    let g = |j: int| fmul(fpow(x, pc(j)), pair(z, j)); sum_neg(g, rn()); let f = |i: int| fadd(fmul(a[i], fpow(z, pa(i))), fmul(b[i], fpow(z, pb(i))));
    assert forall|i: int| 0 <= i < rn() implies #[trigger] f(i) == fneg(g(i)) by { assert(a[i] == fneg(fpow(x, pc(i)))); distr(a[i], fpow(z, pa(i)), fpow(z, pb(i))); neg_left(fpow(x, pc(i)), pair(z, i)); }
    sum_ext(f, |i: int| fneg(g(i)), rn());
}
pub open spec fn pow2(k: int) -> nat decreases k { if k <= 0 { 1 } else { 2 * pow2(k - 1) } }
pub uninterp spec fn ln() -> nat;
pub axiom fn log2() ensures pow2(ln() as int) == rn();
pub proof fn pow2_pos(k: int) requires 0 <= k ensures 1 <= pow2(k) decreases k { if k > 0 { pow2_pos(k - 1); } }
#[verifier::external_body] fn rank_log() -> (r: u32) ensures r == ln() { unimplemented!() }
pub struct SView { pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
pub struct Rows { pub a: Seq<F>, pub b: Seq<F>, pub c: Seq<F>, pub d: Seq<F> }
impl SView {
    #[verifier::external_body] pub fn wiring() -> (r: SView) ensures r.a.len() == 0, r.b.len() == 0, r.c.len() == 0, r.d.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn trace() -> (r: SView) ensures r.a.len() == 0, r.b.len() == 0, r.c.len() == 0, r.d.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Rows) requires self.a.len() <= rn(), self.b.len() <= rn(), self.c.len() <= rn(), self.d.len() <= rn() ensures r.a == self.a@, r.b == self.b@, r.c == self.c@, r.d == self.d@ { unimplemented!() }
}
#[verifier::external_body] fn reverse(v: &mut Vec<F>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
impl F { #[verifier::external_body] pub fn pow(&self, e: [u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as nat) { unimplemented!() } }
"""
EL = T + """
#[verifier::external_body] pub struct El { x: u64 }
#[verifier::external_body] pub struct Driver { x: u64 }
#[verifier::external_body] pub struct Hint { x: u64 }
impl Hint { #[verifier::external_body] fn cast(self) -> (r: (Hint, Hint)) { unimplemented!() } }
impl El {
    pub uninterp spec fn v(&self) -> F;
    #[verifier::external_body] fn mul(&self, dr: &mut Driver, o: &El) -> (r: Result<El, Error>) ensures r.is_ok() ==> r->Ok_0.v() == fmul(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body] fn square(&self, dr: &mut Driver) -> (r: Result<El, Error>) ensures r.is_ok() ==> r->Ok_0.v() == fmul(self.v(), self.v()) { unimplemented!() }
    #[verifier::external_body] fn add(&self, dr: &mut Driver, o: &El) -> (r: El) ensures r.v() == fadd(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body] fn negate(&self, dr: &mut Driver) -> (r: El) ensures r.v() == fneg(self.v()) { unimplemented!() }
    /// whatever the hint: the constraint fixes the inverse
    #[verifier::external_body] fn invert_with(&self, dr: &mut Driver, hint: Hint) -> (r: Result<El, Error>) ensures r.is_ok() ==> fmul(self.v(), r->Ok_0.v()) == fone() { unimplemented!() }
}
impl Clone for El { #[verifier::external_body] fn clone(&self) -> (r: El) ensures r.v() == self.v() { unimplemented!() } }
"""
LOG = (r"R::log2_n\(\)", "rank_log()", "the rank")
NN = (r"Self::n\(\)", "rank_n()", "the rank")
CMP = [(r"(\w+) != F::ZERO", r"!\1.eq_(F::ZERO)", "comparison of field elements")]
SV = (r"sparse::View", "SView", "the view, by its rows")
INV = (r"(\w+)\.invert\(\)\s*\.(?:expect\([^)]*\)|unwrap\(\))", r"\1.inverse()", "the inverse of a number that is not zero")
SQ = "proof { let k = it%d.index(); pow2_pos(k as int); pow_add(%s, pow2(k as int), pow2(k as int)); assert(pow2(k as int) + pow2(k as int) == pow2(k + 1)); }"


def closure(n):
    """The n-th closure given to try_just."""

    def cut(body):
        m = mask(body)
        hits = list(re.finditer(r"try_just\(", m))
        if len(hits) <= n:
            raise Lost("closure not found")
        args, _ = split_args(body, hits[n].end() - 1)
        h = re.match(r"\|\|\s*\{(.*)\}$", args[0], re.S)
        if not h:
            raise Lost("closure not recognised")
        return h[1]

    return cut


FUNCTIONS = [
    dict(name="tz", file=POLY, title="t(X, z): coefficient -(z^(2n-1-i) + z^(2n+i)) for gate i, for every rank and point", sig="fn tz(z: F) -> (r: Rows)", context=T, rewrite=[NN, SV, INV] + CMP,
         spec="ensures r.a.len() == 0, r.b.len() == 0, r.d.len() == 0, z == fzero() ==> r.c.len() == 0, z != fzero() ==> r.c.len() == rn() && forall|i: int| 0 <= i < rn() ==> #[trigger] r.c[i] == fneg(pair(z, i)),",
         names={"v": r"let mut (\w+) = sparse", "l": r"let mut (\w+) = -\w+ \* ", "r": r"let mut (\w+) = -\w+;", "zi": r"let (\w+) = z\.invert"},
         pre="proof { rank(); if z != fzero() { inv_mul(z); down(z, finv(z), 2 * rn()); neg_left(fpow(z, 2 * rn()), finv(z)); assert((2 * rn() - 1) as nat == pa(0)); assert(pb(0) == 2 * rn()); } }",
         loops=[dict(inv="invariant $v.a.len() == 0, $v.b.len() == 0, $v.d.len() == 0, $v.c.len() == it0.index(), z != fzero(), $zi == finv(z), it0.index() <= rn(), $l == fneg(fpow(z, pa(it0.index() as int))), $r == fneg(fpow(z, pb(it0.index() as int))), forall|i: int| 0 <= i < it0.index() ==> #[trigger] $v.c[i] == fneg(pair(z, i)),",
                     start="proof { let k = it0.index() as int; rank(); inv_mul(z); neg_add(fpow(z, pa(k)), fpow(z, pb(k))); down(z, finv(z), pa(k)); up(z, pb(k)); neg_left(fpow(z, pa(k)), finv(z)); neg_left(fpow(z, pb(k)), z); assert((pa(k) - 1) as nat == pa(k + 1)); assert(pb(k) + 1 == pb(k + 1)); }")]),
    dict(name="tx", file=POLY, title="t(x, Z): coefficient -x^(4n-1-i) at both places of gate i, for every rank and point", sig="fn tx(x: F) -> (r: Rows)", context=T, rewrite=[NN, SV, (r"(\w+\.[ab])\.reverse\(\)", r"reverse(&mut \1)", "slice::reverse")] + CMP,
         spec="ensures r.c.len() == 0, r.d.len() == 0, r.b == r.a, x == fzero() ==> r.a.len() == 0, x != fzero() ==> r.a.len() == rn() && forall|i: int| 0 <= i < rn() ==> #[trigger] r.a[i] == fneg(fpow(x, pc(i))),",
         names={"v": r"let mut (\w+) = sparse", "xi": r"let mut (\w+) = -x"}, pre="proof { rank(); }",
         loops=[dict(inv="invariant $v.c.len() == 0, $v.d.len() == 0, $v.a.len() == it0.index(), $v.b@ =~= $v.a@, it0.index() <= rn(), $xi == fneg(fpow(x, (3 * rn() + it0.index()) as nat)), forall|i: int| 0 <= i < it0.index() ==> #[trigger] $v.a[i] == fneg(fpow(x, (3 * rn() + i) as nat)),",
                     start="proof { let k = (3 * rn() + it0.index()) as nat; up(x, k); neg_left(fpow(x, k), x); }")]),
    dict(name="txz in circuit", fn="execute", file=TXZ, title="t(x, z), for every rank and every hint", sig="fn execute(dr: &mut Driver, input: (El, El), aux: Hint) -> (r: Result<El, Error>)", context=EL, rewrite=[LOG],
         spec="ensures r.is_ok() ==> r->Ok_0.v() == t_at(input.0.v(), input.1.v()),",
         names={"x": r"let (\w+) = input\.0", "z": r"let (\w+) = input\.1", "xn": r"let mut (\w+) = \w+\.clone\(\);\s*for _ in 0\.\.R::log2_n\(\) \{\s*\w+ = \w+\.square\(dr\)\?;\s*\}\s*let \w+ = \w+\.square\(dr\)\?;\s*let \w+ = \w+\.square",
                "zn": r"let \w+ = \w+\.square\(dr\)\?;\s*let \w+ = \w+\.square\(dr\)\?;\s*let mut (\w+) = ", "l": r"let mut (\w+) = \w+\.mul\(dr, &\w+\)\?;\s*let mut \w+ = \w+\.clone", "r": r"let mut \w+ = \w+\.mul\(dr, &\w+\)\?;\s*let mut (\w+) = \w+\.clone",
                "xi": r"let (\w+) = \w+\.invert_with\([^;]*;\s*let \w+ = \w+\.invert_with", "zi": r"let \w+ = \w+\.invert_with\([^;]*;\s*let (\w+) = \w+\.invert_with", "s": r"let mut (\w+) = \w+\.mul\(dr, &\w+\)\?;\s*let mut \w+ = \w+\.mul\(dr, &\w+\)\?;\s*for", "si": r"let mut \w+ = \w+\.mul\(dr, &\w+\)\?;\s*let mut (\w+) = \w+\.mul\(dr, &\w+\)\?;\s*for"},
         pre="let ghost (x_, z_) = (input.0.v(), input.1.v()); proof { rank(); log2(); assert(fpow(x_, 1) == x_) by { up(x_, 0); mone(x_); } assert(fpow(z_, 1) == z_) by { up(z_, 0); mone(z_); } pow_add(x_, rn(), rn()); pow_add(x_, 2 * rn(), 2 * rn()); pow_add(z_, rn(), rn()); }",
         loops=[dict(inv="invariant it0.index() <= ln(), $xn.v() == fpow(x_, pow2(it0.index() as int)),", start=SQ % (0, "x_")),
                dict(inv="invariant it1.index() <= ln(), $zn.v() == fpow(z_, pow2(it1.index() as int)),", start=SQ % (1, "z_")),
                dict(before="""let ghost (q, p) = (fmul($xi.v(), z_), fmul($xi.v(), $zi.v())); let ghost c = fmul(fpow(x_, pc(0)), fpow(z_, pb(0)));
                    proof { let n = rn(); assert(n + n == 2 * n); assert(2 * n + 2 * n == 4 * n); down(x_, $xi.v(), 4 * n); assert((4 * n - 1) as nat == pc(0)); assert(2 * n == pb(0)); assert($l.v() == c); assert(pow2(0) == 1);
                        up(q, 0); mone(q); up(p, 0); mone(p); assert(geo(q, 1) == fone()) by { reveal_with_fuel(sum, 3); azero(fone()); } assert(geo(p, 1) == fone()) by { reveal_with_fuel(sum, 3); azero(fone()); } mul_one(c); }""",
                     inv="invariant it2.index() <= ln(), $l.v() == fmul(c, geo(q, pow2(it2.index() as int))), $r.v() == fmul(c, geo(p, pow2(it2.index() as int))), $s.v() == fpow(q, pow2(it2.index() as int)), $si.v() == fpow(p, pow2(it2.index() as int)),",
                     start="proof { let k = it2.index() as int; let m = pow2(k); pow2_pos(k); assert(pow2(k + 1) == 2 * m); assert(m + m == 2 * m); geo_double(q, m); geo_double(p, m); pow_add(q, m, m); pow_add(p, m, m); distr(c, geo(q, m), fmul(geo(q, m), fpow(q, m))); mul_assoc(c, geo(q, m), fpow(q, m)); distr(c, geo(p, m), fmul(geo(p, m), fpow(p, m))); mul_assoc(c, geo(p, m), fpow(p, m)); }",
                     after="proof { t_value(x_, $xi.v(), z_, $zi.v()); }")]),
    dict(name="txz predicted", fn="predict", file=TXZ, cut=closure(1), title="the predicted value is t(x, z), for every rank", sig="fn predicted(x_: F, z_: F, invs: (F, F), n: u64) -> (r: Result<F, Error>)", context=T,
         rewrite=[LOG, (r"\*input\.0\.value\(\)\.take\(\)", "x_", "the value of the input"), (r"\*input\.1\.value\(\)\.take\(\)", "z_", "the value of the input"), (r"\*\w+\.snag\(\)", "invs", "the inverses")],
         spec="requires n == rn(), fmul(x_, invs.0) == fone(), fmul(z_, invs.1) == fone() ensures r == Ok::<F, Error>(t_at(x_, z_)),",
         names={"l": r"let mut (\w+) = x\.pow", "r": r"let mut (\w+) = \w+;\s*for", "s": r"let mut (\w+) = \w+ \* \w+;\s*let mut \w+ = \w+ \* \w+;", "si": r"let mut \w+ = \w+ \* \w+;\s*let mut (\w+) = \w+ \* \w+;\s"},
         pre="proof { rank(); log2(); }",
         loops=[dict(before="""let ghost (q, p) = (fmul(invs.0, z_), fmul(invs.0, invs.1)); let ghost c = fmul(fpow(x_, pc(0)), fpow(z_, pb(0)));
                    proof { let n = rn(); assert((4 * n - 1) as nat == pc(0)); assert(2 * n == pb(0)); assert($l == c); assert(pow2(0) == 1);
                        up(q, 0); mone(q); up(p, 0); mone(p); assert(geo(q, 1) == fone()) by { reveal_with_fuel(sum, 3); azero(fone()); } assert(geo(p, 1) == fone()) by { reveal_with_fuel(sum, 3); azero(fone()); } mul_one(c); }""",
                     inv="invariant it0.index() <= ln(), $l == fmul(c, geo(q, pow2(it0.index() as int))), $r == fmul(c, geo(p, pow2(it0.index() as int))), $s == fpow(q, pow2(it0.index() as int)), $si == fpow(p, pow2(it0.index() as int)),",
                     start="proof { let k = it0.index() as int; let m = pow2(k); pow2_pos(k); assert(pow2(k + 1) == 2 * m); assert(m + m == 2 * m); geo_double(q, m); geo_double(p, m); pow_add(q, m, m); pow_add(p, m, m); distr(c, geo(q, m), fmul(geo(q, m), fpow(q, m))); mul_assoc(c, geo(q, m), fpow(q, m)); distr(c, geo(p, m), fmul(geo(p, m), fpow(p, m))); mul_assoc(c, geo(p, m), fpow(p, m)); }",
                     after="proof { t_value(x_, invs.0, z_, invs.1); }")]),
]

# ---- the trace
TRACED = RANK_ + """
pub proof fn azero(a: F) ensures fadd(fzero(), a) == a { add_comm(a, fzero()); add_zero(a); }
pub struct Segment { pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
pub struct AnnotatedSegment { pub dfs_path: Vec<usize>, pub segment: Segment }
pub open spec fn zeros(n: nat) -> Seq<F> { Seq::new(n, |i: int| fzero()) }
impl Segment {
    pub open spec fn even(&self) -> bool { self.b.len() == self.a.len() && self.c.len() == self.a.len() && self.d.len() == self.a.len() }
    /// one more gate
    pub open spec fn grown(&self, o: &Segment, a: F, b: F, c: F, d: F) -> bool { self.a@ == o.a@.push(a) && self.b@ == o.b@.push(b) && self.c@ == o.c@.push(c) && self.d@ == o.d@.push(d) }
}
"""
SCOPED = TRACED + """
#[derive(Copy, Clone)]
pub enum Coeff { Zero, One, Two, NegativeOne, Arbitrary(F), NegativeArbitrary(F) }
impl Coeff {
    pub open spec fn v(self) -> F { match self { Coeff::Zero => fzero(), Coeff::One => fone(), Coeff::Two => fadd(fone(), fone()), Coeff::NegativeOne => fneg(fone()), Coeff::Arbitrary(a) => a, Coeff::NegativeArbitrary(a) => fneg(a) } }
    #[verifier::external_body] pub fn value(&self) -> (r: F) ensures r == self.v() { unimplemented!() }
}
/// the caller's value of one wire, and of the four wires of a gate
#[verifier::external_body] pub struct One { x: u64 }
#[verifier::external_body] pub struct Four { x: u64 }
impl One { pub uninterp spec fn v(&self) -> F; #[verifier::external_body] fn get(&self) -> (r: Result<Coeff, Error>) ensures r.is_ok() ==> r->Ok_0.v() == self.v() { unimplemented!() } }
impl Four { pub uninterp spec fn v(&self) -> (F, F, F, F); #[verifier::external_body] fn get(&self) -> (r: Result<(Coeff, Coeff, Coeff, Coeff), Error>) ensures r.is_ok() ==> ({ let q = r->Ok_0; self.v() == (q.0.v(), q.1.v(), q.2.v(), q.3.v()) }) { unimplemented!() } }
pub struct Scope { pub available_d: Option<usize>, pub current_segment: usize, pub routine_counter: usize, pub dfs_prefix: Vec<usize> }
pub struct Evaluator { pub segments: Vec<AnnotatedSegment>, pub state: Scope }
impl Evaluator {
    pub open spec fn cur(&self) -> Segment { self.segments[self.state.current_segment as int].segment }
    /// every gate has four values; a d wire on offer belongs to a gate of this segment of the form (0, b, 0, 0)
    pub open spec fn inv(&self) -> bool {
        self.state.current_segment < self.segments.len() && (forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments[i]).segment.even())
        && (self.state.available_d matches Some(i) ==> i < self.cur().a.len() && self.cur().a[i as int] == fzero() && self.cur().c[i as int] == fzero() && self.cur().d[i as int] == fzero())
    }
    pub open spec fn placed(&self) -> bool { self.segments[self.state.current_segment as int].dfs_path@ == self.state.dfs_prefix@ }
    /// nothing but the current segment's gates changed
    pub open spec fn only(&self, o: &Evaluator) -> bool {
        self.segments.len() == o.segments.len() && self.state.current_segment == o.state.current_segment && self.state.routine_counter == o.state.routine_counter && self.state.dfs_prefix == o.state.dfs_prefix
        && (forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments[i]).dfs_path == o.segments[i].dfs_path) && forall|i: int| 0 <= i < self.segments.len() && i != self.state.current_segment ==> #[trigger] self.segments[i] == o.segments[i]
    }
    /// a deeper call leaves what was there, and its own segments come after
    pub open spec fn kept(&self, o: &Evaluator) -> bool { self.segments.len() >= o.segments.len() && forall|i: int| 0 <= i < o.segments.len() && i != o.state.current_segment ==> #[trigger] self.segments[i] == o.segments[i] }
    pub open spec fn with(self, c: Scope) -> Evaluator { Evaluator { state: c, ..self } }
}
/// the segments' paths, and the numbered children deferred to other threads, of one scope
pub open spec fn child(p: Seq<usize>, k: usize) -> Seq<usize> { p.push(k) }
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T) ensures *final(d) == s, r == *old(d);
"""
SEGMENT_NEW = """impl AnnotatedSegment { #[verifier::external_body] fn new(prefix: &[usize]) -> (r: AnnotatedSegment) ensures %s { unimplemented!() } }
"""
FRESH = "r.dfs_path@ == prefix@, r.segment.even(), r.segment.a@ == (if prefix@.len() == 0 { zeros(1) } else { zeros(0) }), r.segment.b@ == r.segment.a@, r.segment.c@ == r.segment.a@, r.segment.d@ == r.segment.a@"


def thunks(body):
    """A local closure without parameters is inlined."""
    while True:
        m = mask(body)
        h = re.search(r"let (\w+) = \|\|", m)
        if not h:
            return body
        d, k = 0, h.end()
        while m[k] != ";" or d:
            d += (m[k] in "([{") - (m[k] in ")]}")
            k += 1
        e = body[h.end():k].strip()
        body = re.sub(r"\b%s\(\)" % h[1], lambda _: "(" + e + ")", body[:h.start()] + body[k + 1:])


def greatest(body):
    """`v.iter().enumerate().map(|(i, s)| e).max().expect(..)` becomes a loop that keeps the greatest value."""
    h = re.search(r"(\w+)\s*\.segments\s*\.iter\(\)\s*\.enumerate\(\)\s*\.map\(", body)
    if not h:
        raise Lost("the number of gates of the whole trace not found")
    a, c = split_args(body, h.end() - 1)
    g = re.match(r"\|\((\w+), (\w+)\)\|\s*(.*)$", a[0], re.S)
    e = re.match(r"\s*\.max\(\)\s*\.(?:expect\((?:[^()]|\([^()]*\))*\)|unwrap\(\))", body[c + 1:])
    if not g or not e:
        raise Lost("the number of gates of the whole trace not recognised")
    return body[:h.start()] + f"{{ let mut most__: usize = 0; for {g[1]} in 0..{h[1]}.segments.len() {{ let {g[2]} = &{h[1]}.segments[{g[1]}]; let here__ = {unbrace(g[3])}; if here__ > most__ {{ most__ = here__; }} }} most__ }}" + body[c + 1 + e.end():]


def unknown(body):
    """The arm of a routine whose output is predicted hands its work to another evaluator, created with the child's path;
    of that arm only the path is kept. with_scope becomes a call by contract; its closure has its own."""
    m = mask(body)
    h = re.search(r"Prediction::Known\(([^)]*)\)\s*=>\s*\{", m)
    if not h:
        raise Lost("routine: the predicted arm not found")
    c = close(m, h.end() - 1)
    p = set(re.findall(r"Evaluator::new\((\w+),", body[h.end():c]))
    if len(p) != 1:
        raise Lost("routine: the deferred evaluator not found")
    body = body[:h.end()] + f" deferred({p.pop()}) " + body[c:]
    h = re.search(r"self\.with_scope\(", body)
    if not h:
        raise Lost("routine: with_scope not found")
    args, c = split_args(body, h.end() - 1)
    return body[:h.end()] + args[0] + body[c:]


def inner(body):
    h = re.search(r"self\.with_scope\(", body)
    g = re.search(r"let (\w+) = self\.segments\.len\(\) - 1", body)
    if not h or not g:
        raise Lost("routine: with_scope or the segment not found")
    args, _ = split_args(body, h.end() - 1)
    c = re.match(r"\|(\w+)\|\s*(.*)$", args[1], re.S)
    if not c:
        raise Lost("routine: closure not found")
    return re.sub(r"\b%s\b" % g[1], "seg", re.sub(r"\b%s\b" % c[1], "this", unbrace(c[2])))


RUNS = """
/// what the circuit code does between two states, operation by operation
pub uninterp spec fn ran(s: Evaluator, e: Evaluator) -> bool;
#[verifier::external_body] fn execute(this: &mut Evaluator) -> (r: Result<(), Error>) requires old(this).inv() ensures r.is_ok() ==> ran(*old(this), *final(this)) && final(this).inv() && final(this).kept(old(this)) { unimplemented!() }
"""
BODY = "requires seg == old(this).state.current_segment, old(this).inv() ensures r.is_ok() ==> ran(*old(this), *final(this)) && final(this).inv() && final(this).kept(old(this)) && final(this).state.current_segment == old(this).state.current_segment,"
SCOPE = "requires old(self).with(init).inv() ensures final(self).state == old(self).state, r.is_ok() ==> exists|e: Evaluator| #[trigger] ran(old(self).with(init), e) && e.inv() && e.kept(&old(self).with(init)) && e.segments == final(self).segments,"
PUSHED = """
/// s with one more, fresh, segment, in the scope of which the child runs
pub open spec fn entered(s: Evaluator, b: Evaluator) -> bool {
    b.inv() && b.segments.len() == s.segments.len() + 1 && (forall|i: int| 0 <= i < s.segments.len() ==> #[trigger] b.segments[i] == s.segments[i]) && b.cur().a.len() == 0 && b.placed() && b.state.current_segment == s.segments.len()
    && b.state.available_d is None && b.state.routine_counter == 0 && b.state.dfs_prefix@ == child(s.state.dfs_prefix@, s.state.routine_counter)
}
pub uninterp spec fn spawned(p: Seq<usize>) -> bool;
#[verifier::external_body] fn deferred(prefix: Vec<usize>) -> (r: Result<(), Error>) ensures r.is_ok() ==> spawned(prefix@) { unimplemented!() }
pub enum Prediction { Known((), ()), Unknown(()) }
#[verifier::external_body] fn predict() -> (r: Result<Prediction, Error>) { unimplemented!() }
"""
GATES = """
/// column w of a segment
pub open spec fn col(s: Segment, w: int) -> Seq<F> { if w == 0 { s.a@ } else if w == 1 { s.b@ } else if w == 2 { s.c@ } else { s.d@ } }
pub open spec fn inside(p: Seq<ConstraintSegment>, s: Seq<Segment>, i: int, k: int) -> bool { p[i].gate_start <= k < p[i].gate_start + s[i].a.len() }
/// the first m segments are at their places, and nothing else is anywhere
pub open spec fn filled(v: Seq<F>, s: Seq<Segment>, p: Seq<ConstraintSegment>, m: int, w: int) -> bool {
    (forall|i: int, k: int| 0 <= i < m && #[trigger] inside(p, s, i, k) ==> v[k] == col(s[i], w)[k - p[i].gate_start])
    && forall|k: int| 0 <= k < v.len() && (forall|i: int| 0 <= i < m ==> !#[trigger] inside(p, s, i, k)) ==> #[trigger] v[k] == fzero()
}
/// segments of a plan follow one another (C10)
pub open spec fn apart(p: Seq<ConstraintSegment>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i].gate_start + p[i].num_gates <= #[trigger] p[j].gate_start }
pub proof fn fill(v: Seq<F>, u: Seq<F>, s: Seq<Segment>, p: Seq<ConstraintSegment>, m: int, w: int)
    requires 0 <= m < s.len(), s.len() == p.len(), 0 <= w < 4, apart(p), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).even(), forall|i: int| 0 <= i <= m ==> (#[trigger] s[i]).a.len() == p[i].num_gates,
        p[m].gate_start + s[m].a.len() <= v.len(), filled(v, s, p, m, w), over(v, u, p[m].gate_start as int, col(s[m], w)),
    ensures filled(u, s, p, m + 1, w)
{
    assert forall|i: int, k: int| 0 <= i < m + 1 && #[trigger] inside(p, s, i, k) implies u[k] == col(s[i], w)[k - p[i].gate_start] by {
        assert(s[m].even());
        if i == m { assert(u[p[m].gate_start + (k - p[m].gate_start)] == col(s[m], w)[k - p[m].gate_start]); } else { assert(p[i].gate_start + p[i].num_gates <= p[m].gate_start); assert(s[i].a.len() == p[i].num_gates); assert(u[k] == v[k]); }
    }
    assert forall|k: int| 0 <= k < u.len() && (forall|i: int| 0 <= i < m + 1 ==> !#[trigger] inside(p, s, i, k)) implies #[trigger] u[k] == fzero() by { assert(!inside(p, s, m, k)); assert(s[m].even()); assert(u[k] == v[k]); }
}
/// u is v with w written from o on
pub open spec fn over(v: Seq<F>, u: Seq<F>, o: int, w: Seq<F>) -> bool { u.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] u[k] == (if o <= k < o + w.len() { w[k - o] } else { v[k] }) }
#[verifier::external_body] fn write_slice(v: &mut Vec<F>, lo: usize, hi: usize, s: &Vec<F>) requires lo <= hi <= old(v).len(), hi - lo == s.len() ensures over(old(v)@, final(v)@, lo as int, s@) { v[lo..hi].copy_from_slice(s) }
#[verifier::external_body] fn resize(v: &mut Vec<F>, n: usize, x: F) requires old(v).len() == 0 ensures final(v)@ == Seq::new(n as nat, |i: int| x) { v.resize(n, x) }
pub struct Trace { pub segments: Vec<Segment> }
pub struct SView { pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
pub struct Rows { pub a: Seq<F>, pub b: Seq<F>, pub c: Seq<F>, pub d: Seq<F> }
impl SView {
    #[verifier::external_body] pub fn trace() -> (r: SView) ensures r.a.len() == 0, r.b.len() == 0, r.c.len() == 0, r.d.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Rows) requires self.a.len() <= rn(), self.b.len() <= rn(), self.c.len() <= rn(), self.d.len() <= rn() ensures r.a == self.a@, r.b == self.b@, r.c == self.c@, r.d == self.d@ { unimplemented!() }
}
pub open spec fn size(s: Seq<Segment>, p: Seq<ConstraintSegment>, n: int) -> bool { (forall|i: int| 0 <= i < s.len() ==> (#[trigger] p[i]).gate_start + s[i].a.len() <= n) }
"""
SORTS = """
pub open spec fn before(a: Seq<usize>, b: Seq<usize>) -> bool decreases a.len() { a.len() == 0 || (b.len() > 0 && (a[0] < b[0] || a[0] == b[0] && before(a.skip(1), b.skip(1)))) }
pub open spec fn ordered(s: Seq<AnnotatedSegment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> before((#[trigger] s[i]).dfs_path@, (#[trigger] s[j]).dfs_path@) }
pub open spec fn reversed(s: Seq<AnnotatedSegment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> before((#[trigger] s[j]).dfs_path@, (#[trigger] s[i]).dfs_path@) }
fn must(c: bool) requires c {}
#[verifier::external_body] fn sort_by_path(v: &mut Vec<AnnotatedSegment>, up: bool) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v).len() == old(v).len(), up ==> ordered(final(v)@), !up ==> reversed(final(v)@) { unimplemented!() }
pub struct Trace { pub segments: Vec<Segment> }
"""


def sorting(h):
    if {h[2], h[3]} != {h[4], h[5]}:
        return "unknown_order()"
    return f"sort_by_path(&mut {h[1]}, {'true' if h[2] == h[4] else 'false'})"


VALUE = (r"\b(values?)\(\)\?", r"\1.get()?", "the caller's closure")
EVENP = "proof { let k = self.state.current_segment as int; assert(self.segments[k].segment.even()); }"
WR = (r"(\w+\.[abcd])\[([\w.]+)\s*\.\.\s*([\w.() +]+)\]\s*\.copy_from_slice\(&([\w.]+)\)", r"write_slice(&mut \1, \2, \3, &\4)", "copy_from_slice")
RS = (r"(\w+\.[abcd])\.resize\(", r"resize(&mut \1, ", "Vec::resize")

FUNCTIONS += [
    dict(name="AnnotatedSegment::new", fn="new", file=TRACE, within=r"impl<F: Field> AnnotatedSegment<F>", title="the path it was given; the root starts with the placeholder gate, every other segment empty", sig="impl AnnotatedSegment { fn new(prefix: &[usize]) -> (r: AnnotatedSegment)", suffix="}",
         context=TRACED + "pub open spec fn one_zero(v: Seq<F>) -> bool { v == zeros(1) }\n#[verifier::external_body] fn to_vec(s: &[usize]) -> (r: Vec<usize>) ensures r@ == s@ { s.to_vec() }\n#[verifier::external_body] fn is_empty(s: &[usize]) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }\n",
         transform=[(thunks, "a local closure without parameters is inlined")], rewrite=[(r"(\w+)\.to_vec\(\)", r"to_vec(\1)", "slice::to_vec"), (r"(\w+)\.is_empty\(\)", r"is_empty(\1)", "slice::is_empty"), (r"\bSelf\b", "AnnotatedSegment", "the type")],
         spec="ensures " + FRESH + ",", post="proof { if prefix@.len() == 0 { assert(r__.segment.a@ =~= zeros(1)); assert(r__.segment.b@ =~= zeros(1)); assert(r__.segment.c@ =~= zeros(1)); assert(r__.segment.d@ =~= zeros(1)); } else { assert(r__.segment.a@ =~= zeros(0)); assert(r__.segment.b@ =~= zeros(0)); assert(r__.segment.c@ =~= zeros(0)); assert(r__.segment.d@ =~= zeros(0)); } }"),
    dict(name="trace::gate", fn="gate", file=TRACE, title="one more gate with the caller's four values, in the current segment", sig="impl Evaluator { fn gate(&mut self, values: Four) -> (r: Result<((), (), (), ()), Error>)", suffix="}", context=SCOPED, rewrite=[VALUE],
         spec="requires old(self).inv() ensures final(self).inv() || r.is_err(), r.is_ok() ==> final(self).only(old(self)) && final(self).state.available_d == old(self).state.available_d && ({ let v = values.v(); final(self).cur().grown(&old(self).cur(), v.0, v.1, v.2, v.3) }),", pre=EVENP),
    dict(name="trace::alloc", fn="alloc", file=TRACE, title="a wire goes into the free d of its own segment's gate, or into the b of a new gate, whose d is then free", sig="impl Evaluator { fn alloc(&mut self, value: One) -> (r: Result<(), Error>)", suffix="}", context=SCOPED, rewrite=[VALUE],
         spec="""requires old(self).inv() ensures final(self).inv() || r.is_err(), r.is_ok() ==> final(self).only(old(self)) && (match old(self).state.available_d {
            Some(i) => final(self).state.available_d is None && final(self).cur().a == old(self).cur().a && final(self).cur().b == old(self).cur().b && final(self).cur().c == old(self).cur().c && final(self).cur().d@ == old(self).cur().d@.update(i as int, value.v()),
            None => final(self).state.available_d == Some(old(self).cur().a.len()) && final(self).cur().grown(&old(self).cur(), fzero(), value.v(), fzero(), fzero()),
        }),""", pre=EVENP),
    dict(name="trace::routine body", fn="routine", file=TRACE, cut=inner, title="the current segment is the same before and after a routine", sig="fn body(this: &mut Evaluator, seg: usize) -> (r: Result<(), Error>)", context=SCOPED + RUNS, transform=[ASSERTS], spec=BODY, rewrite=[(r"\w+\.execute\(this, \w+, \w+\)", "execute(this)", "the routine's own synthesis")]),
    dict(name="trace::with_scope", fn="with_scope", within=r"trait DriverScope", file="crates/ragu_circuits/src/lib.rs", title="the caller's scope is back when the closure returns", sig="impl Evaluator { fn with_scope(&mut self, init: Scope) -> (r: Result<(), Error>)", suffix="}", spec=SCOPE, context=SCOPED + RUNS + "#[verifier::external_body] fn body(this: &mut Evaluator) -> (r: Result<(), Error>) " + BODY.replace("seg == old(this).state.current_segment, ", "") + " { unimplemented!() }\n",
         rewrite=[(r"\*self\.scope\(\)", "self.state", "the scope accessor"), (r"self\.scope\(\)", "(&mut self.state)", "the scope accessor"), (r"\bf\(self\)", "body(self)", "the closure")], pre="let ghost in_ = self.with(init); let ghost mut e_: Option<Evaluator> = None;" "proof { assert(Evaluator { state: init, ..*self } == in_); }"),
    dict(name="trace::routine", fn="routine", file=TRACE, title="child k of a scope has the scope's path extended by k, whether deferred or not; an inline one gets a fresh segment of its own; the caller's segment and free wire are untouched", sig="impl Evaluator { fn routine(&mut self) -> (r: Result<(), Error>)", suffix="}", transform=[(unknown, "with_scope by its contract; the threads of the deferred arm are dropped")],
         context=SCOPED + RUNS + PUSHED + SEGMENT_NEW % FRESH + "impl Evaluator { #[verifier::external_body] fn with_scope(&mut self, init: Scope) -> (r: Result<(), Error>) %s { unimplemented!() } }\n#[verifier::external_body] fn copy(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { v.clone() }\n" % SCOPE,
         rewrite=[(r"Emulator::predict\(&\w+, &\w+\)", "predict()", "prediction, which sees only values"), (r"self\.state\.dfs_prefix\.clone\(\)", "copy(&self.state.dfs_prefix)", "Vec::clone"), (r"\bTraceScope\b", "Scope", "the scope's type")],
         spec="""requires old(self).inv(), old(self).state.routine_counter < usize::MAX, old(self).segments.len() < usize::MAX ensures r.is_ok() ==> final(self).inv() && final(self).state.available_d == old(self).state.available_d && final(self).state.current_segment == old(self).state.current_segment && final(self).state.dfs_prefix@ == old(self).state.dfs_prefix@ && final(self).state.routine_counter == old(self).state.routine_counter + 1
            && (forall|i: int| 0 <= i < old(self).segments.len() ==> #[trigger] final(self).segments[i] == old(self).segments[i])
            && (final(self).segments == old(self).segments && spawned(child(old(self).state.dfs_prefix@, old(self).state.routine_counter)) || exists|b: Evaluator, e: Evaluator| #[trigger] ran(b, e) && entered(*old(self), b) && e.inv() && e.segments == final(self).segments),"""),
    dict(name="Trace::assemble", fn="assemble", file=TRACE, title="every segment at its place in the plan, zero elsewhere, with one and alpha in the first gate; a plan for other segments, and more gates than the rank has, are refused", sig="impl Trace { fn assemble(&self, floor_plan: &Vec<ConstraintSegment>, alpha: F) -> (r: Result<Rows, Error>)", suffix="}", context=TRACED + GATES,
         transform=[ASSERTS, (greatest, "the greatest end of a segment"), ENUMERATES], rewrite=[RANKN, SV, WR, RS],
         spec="""requires floor_plan.len() > 0, apart(floor_plan@), forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments[i]).even(), self.segments.len() > 0 ==> self.segments[0].a.len() > 0, forall|i: int| 0 <= i < self.segments.len() && i < floor_plan.len() ==> (#[trigger] floor_plan[i]).gate_start + self.segments[i].a.len() <= usize::MAX
            ensures r.is_err() ==> !size(self.segments@, floor_plan@, rn() as int), r.is_ok() ==> ({ let q = r->Ok_0; let (s, p) = (self.segments@, floor_plan@); s.len() == p.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).a.len() == p[i].num_gates) && size(s, p, rn() as int) && size(s, p, q.a.len() as int)
                && q.a.len() <= rn() && q.b.len() == q.a.len() && q.c.len() == q.a.len() && q.d.len() == q.a.len() && filled(q.a, s, p, s.len() as int, 0) && filled(q.c, s, p, s.len() as int, 2)
                && exists|b: Seq<F>, d: Seq<F>| q.b == b.update(0, fone()) && q.d == d.update(0, alpha) && #[trigger] filled(b, s, p, s.len() as int, 1) && #[trigger] filled(d, s, p, s.len() as int, 3) }),""",
         names={"v": r"let mut (\w+) = sparse", "total": r"let (\w+) = self\s*\.segments"}, pre="proof { rank(); } let ghost (s_, p_) = (self.segments@, floor_plan@); proof { assert(self.segments.len() <= usize::MAX); }",
         loops=[dict(inv="invariant s_ == self.segments@, p_ == floor_plan@, s_.len() == p_.len(), forall|i: int| 0 <= i < s_.len() ==> (#[trigger] p_[i]).gate_start + s_[i].a.len() <= usize::MAX, forall|i: int| 0 <= i < it0.index() ==> (#[trigger] p_[i]).gate_start + s_[i].a.len() <= most__, most__ > 0 ==> exists|i: int| 0 <= i < s_.len() && most__ == (#[trigger] p_[i]).gate_start + s_[i].a.len(),"),
                dict(before="proof { assert(p_[0].gate_start + s_[0].a.len() <= $total); assert(filled($v.a@, s_, p_, 0, 0)); assert(filled($v.b@, s_, p_, 0, 1)); assert(filled($v.c@, s_, p_, 0, 2)); assert(filled($v.d@, s_, p_, 0, 3)); }",
                     inv="""invariant c0__ == it1.index(), s_.len() <= usize::MAX, s_ == self.segments@, p_ == floor_plan@, s_.len() == p_.len(), apart(p_), 0 <= it1.index() <= s_.len(), it1.seq().len() == s_.len(), forall|i: int| 0 <= i < s_.len() ==> *(#[trigger] it1.seq()[i]) == s_[i], forall|i: int| 0 <= i < s_.len() ==> (#[trigger] s_[i]).even(), forall|i: int| 0 <= i < s_.len() ==> (#[trigger] p_[i]).gate_start + s_[i].a.len() <= $total,
                        $v.a.len() == $total, $v.b.len() == $total, $v.c.len() == $total, $v.d.len() == $total, forall|i: int| 0 <= i < it1.index() ==> (#[trigger] s_[i]).a.len() == p_[i].num_gates,
                        filled($v.a@, s_, p_, it1.index() as int, 0), filled($v.b@, s_, p_, it1.index() as int, 1), filled($v.c@, s_, p_, it1.index() as int, 2), filled($v.d@, s_, p_, it1.index() as int, 3),""",
                     start="let ghost (a_, b_, c_, d_) = ($v.a@, $v.b@, $v.c@, $v.d@); proof { let m = it1.index() as int; assert(s_[m].even()); assert(p_[m].gate_start + s_[m].a.len() <= $total); }",
                     end="proof { let m = it1.index() as int; fill(a_, $v.a@, s_, p_, m, 0); fill(b_, $v.b@, s_, p_, m, 1); fill(c_, $v.c@, s_, p_, m, 2); fill(d_, $v.d@, s_, p_, m, 3); }",
                     after="let ghost (b_, d_) = ($v.b@, $v.d@);")]),
    dict(name="finish", file=TRACE, title="all segments, in the order of their paths, the root first", sig="fn finish(segments_: Vec<AnnotatedSegment>) -> (r: Trace)", context=TRACED + SORTS, transform=[ASSERTS, (lambda b: re.sub(r"(\w+)\.into_iter\(\)\.map\(\|(\w+)\| \2\.segment\)\.collect\(\)", r"{ let mut o__: Vec<Segment> = Vec::new(); for \2 in \1 { o__.push(\2.segment); } o__ }", b), "a map over a vector is a loop")],
         rewrite=[(r"(\w+)\.sort_unstable_by\(\|(\w+), (\w+)\| (\w+)\.dfs_path\.cmp\(&(\w+)\.dfs_path\)\)", sorting, "sort_unstable_by"), (r"(\w+\[0\])\.dfs_path\.is_empty\(\)", r"(\1.dfs_path.len() == 0)", "Vec::is_empty"),
                  (r"refuse_unless\(", "{ proof { let k = choose|k: int| 0 <= k < segments_.len() && (#[trigger] segments_[k]).dfs_path.len() == 0; let t = segments@; segments_@.to_multiset_ensures(); t.to_multiset_ensures(); let x = segments_@[k]; assert(segments_@.contains(x)); assert(segments_@.to_multiset().count(x) > 0); assert(t.to_multiset() == segments_@.to_multiset()); assert(t.to_multiset().count(x) > 0); assert(t.contains(x)); let j = choose|j: int| 0 <= j < t.len() && t[j] == segments_[k]; assert(t[j].dfs_path.len() == 0); assert(before(t[0].dfs_path@, t[j].dfs_path@) || j == 0); } } must(", "the assertion must hold")],
         spec="requires segments_.len() > 0, exists|k: int| 0 <= k < segments_.len() && (#[trigger] segments_[k]).dfs_path.len() == 0 ensures exists|s: Seq<AnnotatedSegment>| s.to_multiset() == segments_@.to_multiset() && #[trigger] ordered(s) && s[0].dfs_path.len() == 0 && r.segments.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r.segments[i] == s[i].segment,",
         names={"s": r"(\w+)\.sort_unstable_by"}, pre="let mut segments = segments_;", loops=[dict(before="let ghost s_ = $s@;", inv="invariant o__.len() == it0.index(), it0.index() <= s_.len(), it0.seq() == s_, ordered(s_), s_[0].dfs_path.len() == 0, s_.to_multiset() == segments_@.to_multiset(), s_.len() > 0, forall|i: int| 0 <= i < it0.index() ==> #[trigger] o__[i] == s_[i].segment,")]),
]

# ---- the identity
IDENTITY = T + """
pub open spec fn laid_out(a: Seq<F>, b: Seq<F>, c: Seq<F>, d: Seq<F>, n: int, k: int) -> F {
    if 0 <= k < c.len() { c[k] }
    else if 2 * n - b.len() <= k < 2 * n { b[2 * n - 1 - k] }
    else if 2 * n <= k < 2 * n + a.len() { a[k - 2 * n] }
    else if 4 * n - d.len() <= k < 4 * n { d[4 * n - 1 - k] }
    else { fzero() }
}
pub open spec fn at(s: Seq<F>, i: int) -> F { if 0 <= i < s.len() { s[i] } else { fzero() } }
pub open spec fn fits(p: Rows) -> bool { p.a.len() <= rn() && p.b.len() <= rn() && p.c.len() <= rn() && p.d.len() <= rn() }
/// coefficient k of a trace, and of a wiring polynomial, whose perspective exchanges the buffers (C07)
pub open spec fn trace_at(p: Rows, k: int) -> F { laid_out(p.a, p.b, p.c, p.d, rn() as int, k) }
pub open spec fn wiring_at(p: Rows, k: int) -> F { laid_out(p.b, p.a, p.d, p.c, rn() as int, k) }
/// r(X) against s(X, y) + r(zX) + t(X, z), reversed
pub open spec fn other(r: Rows, s: Rows, t: Rows, z: F, k: int) -> F { fadd(fadd(wiring_at(s, k), fmul(trace_at(r, k), fpow(z, k as nat))), wiring_at(t, k)) }
pub open spec fn revdot(r: Rows, s: Rows, t: Rows, z: F) -> F { sum(|k: int| fmul(trace_at(r, k), other(r, s, t, z, 4 * rn() - 1 - k)), 4 * rn()) }
/// gate i's part of the wires read through s, of a b - c, and of c d
pub open spec fn read(r: Rows, s: Rows, i: int) -> F { fadd(fadd(fmul(at(r.a, i), at(s.a, i)), fmul(at(r.b, i), at(s.b, i))), fadd(fmul(at(r.c, i), at(s.c, i)), fmul(at(r.d, i), at(s.d, i)))) }
pub open spec fn product(r: Rows, i: int) -> F { fadd(fmul(at(r.a, i), at(r.b, i)), fneg(at(r.c, i))) }
pub open spec fn spare(r: Rows, i: int) -> F { fmul(at(r.c, i), at(r.d, i)) }
pub open spec fn gate(r: Rows, z: F, i: int) -> F { fadd(fmul(product(r, i), pair(z, i)), fmul(spare(r, i), fadd(fpow(z, pc(i)), fpow(z, pd(i))))) }
pub open spec fn four(f: spec_fn(int) -> F, i: int) -> F { let n = rn() as int; fadd(fadd(f(i), f(2 * n - 1 - i)), fadd(f(2 * n + i), f(4 * n - 1 - i))) }
pub proof fn quarters(f: spec_fn(int) -> F) ensures sum(f, 4 * rn()) == sum(|i: int| four(f, i), rn()) {
    let n = rn(); let (p, q, u, v) = (|i: int| f(i), |i: int| f(2 * n - 1 - i), |i: int| f(2 * n + i), |i: int| f(4 * n - 1 - i));
    sum_split(f, 2 * n, 2 * n); assert(2 * n + 2 * n == 4 * n); sum_split(f, n, n); assert(n + n == 2 * n);
    let h = |i: int| f(2 * n + i); sum_split(h, n, n);
    sum_rev(q, n); sum_ext(|i: int| q(n - 1 - i), |i: int| f(n + i), n);
    sum_rev(v, n); sum_ext(|i: int| v(n - 1 - i), |i: int| h(n + i), n);
    sum_ext(f, p, n); sum_ext(h, u, n);
    let (l, m) = (|i: int| fadd(p(i), q(i)), |i: int| fadd(u(i), v(i)));
    sum_add(p, q, n); sum_add(u, v, n); sum_add(l, m, n); sum_ext(|i: int| fadd(l(i), m(i)), |i: int| four(f, i), n);
}
/// x (s + y z + t) = x s + (x y) z + x t
pub proof fn spread(x: F, s: F, y: F, z: F, t: F) ensures fmul(x, fadd(fadd(s, fmul(y, z)), t)) == fadd(fadd(fmul(x, s), fmul(fmul(x, y), z)), fmul(x, t)) { distr(x, fadd(s, fmul(y, z)), t); distr(x, s, fmul(y, z)); mul_assoc(x, y, z); }
pub proof fn one_gate(r: Rows, s: Rows, t: Rows, z: F, i: int)
    requires fits(r), fits(s), 0 <= i < rn(), t.a.len() == 0, t.b.len() == 0, t.d.len() == 0, t.c.len() == rn(), t.c[i] == fneg(pair(z, i)),
    ensures four(|k: int| fmul(trace_at(r, k), other(r, s, t, z, 4 * rn() - 1 - k)), i) == fadd(read(r, s, i), gate(r, z, i))
{
    rank(); let n = rn() as int; let (a, b, c, d) = (at(r.a, i), at(r.b, i), at(r.c, i), at(r.d, i)); let (e, f, g, h) = (at(s.a, i), at(s.b, i), at(s.c, i), at(s.d, i));
    let (za, zb, zc, zd) = (fpow(z, pa(i)), fpow(z, pb(i)), fpow(z, pc(i)), fpow(z, pd(i))); let m = fneg(fadd(za, zb));
    assert(trace_at(r, i) == c); assert(trace_at(r, 2 * n - 1 - i) == b); assert(trace_at(r, 2 * n + i) == a); assert(trace_at(r, 4 * n - 1 - i) == d);
    assert(wiring_at(s, i) == h); assert(wiring_at(s, 2 * n - 1 - i) == e); assert(wiring_at(s, 2 * n + i) == f); assert(wiring_at(s, 4 * n - 1 - i) == g);
    assert(wiring_at(t, i) == fzero()); assert(wiring_at(t, 2 * n - 1 - i) == fzero()); assert(wiring_at(t, 2 * n + i) == fzero()); assert(wiring_at(t, 4 * n - 1 - i) == m);
    assert(4 * n - 1 - (2 * n - 1 - i) == 2 * n + i); assert(4 * n - 1 - (2 * n + i) == 2 * n - 1 - i); assert(4 * n - 1 - (4 * n - 1 - i) == i);
    let ab = fmul(a, b); let cd = fmul(c, d);
    spread(c, g, d, zc, m); spread(b, f, a, zb, fzero()); spread(a, e, b, za, fzero()); spread(d, h, c, zd, fzero()); mul_comm(b, a); mul_comm(d, c);
    mul_zero(b); mul_zero(a); mul_zero(d);
    let (c1, b1, a1, d1) = (fadd(fmul(c, g), fmul(cd, zc)), fadd(fmul(b, f), fmul(ab, zb)), fadd(fmul(a, e), fmul(ab, za)), fadd(fmul(d, h), fmul(cd, zd)));
    add_zero(b1); add_zero(a1); add_zero(d1); let cm = fmul(c, m);
    // ((c1 + cm) + b1) + (a1 + d1)
    let total = fadd(fadd(fadd(c1, cm), b1), fadd(a1, d1));
    add_assoc(c1, cm, b1); add_comm(cm, b1); add_assoc(c1, b1, cm); add_assoc(fadd(c1, b1), cm, fadd(a1, d1)); add_comm(cm, fadd(a1, d1)); add_assoc(fadd(c1, b1), fadd(a1, d1), cm);
    assert(total == fadd(fadd(fadd(c1, b1), fadd(a1, d1)), cm));
    swap4(fmul(c, g), fmul(cd, zc), fmul(b, f), fmul(ab, zb)); swap4(fmul(a, e), fmul(ab, za), fmul(d, h), fmul(cd, zd));
    let (p, q, u, v) = (fadd(fmul(c, g), fmul(b, f)), fadd(fmul(cd, zc), fmul(ab, zb)), fadd(fmul(a, e), fmul(d, h)), fadd(fmul(ab, za), fmul(cd, zd)));
    swap4(p, q, u, v);
    // p + u is what is read
    add_comm(p, u); swap4(fmul(a, e), fmul(d, h), fmul(c, g), fmul(b, f)); add_comm(fmul(d, h), fmul(b, f)); swap4(fmul(a, e), fmul(c, g), fmul(b, f), fmul(d, h)); assert(fadd(u, p) == read(r, s, i));
    // q + v
    add_comm(fmul(cd, zc), fmul(ab, zb)); swap4(fmul(ab, zb), fmul(cd, zc), fmul(ab, za), fmul(cd, zd)); distr(ab, zb, za); add_comm(zb, za); distr(cd, zc, zd);
    let (x, w) = (fmul(ab, fadd(za, zb)), fmul(cd, fadd(zc, zd))); assert(fadd(q, v) == fadd(x, w));
    neg_mul(c, fadd(za, zb)); distl(ab, fneg(c), fadd(za, zb)); neg_left(c, fadd(za, zb)); assert(fadd(x, cm) == fmul(product(r, i), pair(z, i)));
    add_assoc(read(r, s, i), fadd(x, w), cm); add_assoc(x, w, cm); add_comm(w, cm); add_assoc(x, cm, w);
}
/// C09: the inner product is what the wires read through s, plus the gates' errors at their own powers of z
pub proof fn identity(r: Rows, s: Rows, t: Rows, z: F)
    requires fits(r), fits(s), t.a.len() == 0, t.b.len() == 0, t.d.len() == 0, t.c.len() == rn(), forall|i: int| 0 <= i < rn() ==> #[trigger] t.c[i] == fneg(pair(z, i)),
    ensures revdot(r, s, t, z) == fadd(sum(|i: int| read(r, s, i), rn()), sum(|i: int| gate(r, z, i), rn()))
{
    let f = |k: int| fmul(trace_at(r, k), other(r, s, t, z, 4 * rn() - 1 - k)); let (g, h) = (|i: int| read(r, s, i), |i: int| gate(r, z, i));
    quarters(f);
    assert forall|i: int| 0 <= i < rn() implies #[trigger] four(f, i) == fadd(g(i), h(i)) by { assert(t.c[i] == fneg(pair(z, i))); one_gate(r, s, t, z, i); }
    sum_ext(|i: int| four(f, i), |i: int| fadd(g(i), h(i)), rn()); sum_add(g, h, rn());
}
/// the coefficients in z of the gates' part, and of the whole identity, whose constant term also has what the wires read less k(y)
pub open spec fn gate_z(r: Rows, k: int) -> F { let n = rn() as int; if k < n { spare(r, k) } else if k < 2 * n { product(r, 2 * n - 1 - k) } else if k < 3 * n { product(r, k - 2 * n) } else { spare(r, 4 * n - 1 - k) } }
pub open spec fn error_z(r: Rows, w: F, ky: F, k: int) -> F { if k == 0 { fadd(gate_z(r, 0), fadd(w, fneg(ky))) } else { gate_z(r, k) } }
pub proof fn gates_in_z(r: Rows, z: F) ensures sum(|k: int| fmul(gate_z(r, k), fpow(z, k as nat)), 4 * rn()) == sum(|i: int| gate(r, z, i), rn()) {
    rank(); let f = |k: int| fmul(gate_z(r, k), fpow(z, k as nat)); let n = rn() as int; quarters(f);
    assert forall|i: int| 0 <= i < n implies #[trigger] four(f, i) == gate(r, z, i) by {
        let (p, s) = (product(r, i), spare(r, i)); let (za, zb, zc, zd) = (fpow(z, pa(i)), fpow(z, pb(i)), fpow(z, pc(i)), fpow(z, pd(i)));
        assert(f(i) == fmul(s, zd)); assert(f(2 * n - 1 - i) == fmul(p, za)); assert(f(2 * n + i) == fmul(p, zb)); assert(f(4 * n - 1 - i) == fmul(s, zc));
        add_comm(fmul(s, zd), fmul(p, za)); swap4(fmul(p, za), fmul(s, zd), fmul(p, zb), fmul(s, zc)); distr(p, za, zb); distr(s, zd, zc); add_comm(zd, zc);
    }
    sum_ext(|i: int| four(f, i), |i: int| gate(r, z, i), rn());
}
/// C09: the identity holds as a polynomial in z exactly when every gate holds and the wires read k(y)
pub proof fn exactly(r: Rows, s: Rows, t: Rows, z: F, ky: F)
    requires fits(r), fits(s), t.a.len() == 0, t.b.len() == 0, t.d.len() == 0, t.c.len() == rn(), forall|i: int| 0 <= i < rn() ==> #[trigger] t.c[i] == fneg(pair(z, i)),
    ensures ({ let w = sum(|i: int| read(r, s, i), rn());
        fadd(revdot(r, s, t, z), fneg(ky)) == sum(|k: int| fmul(error_z(r, w, ky, k), fpow(z, k as nat)), 4 * rn())
        && ((forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] error_z(r, w, ky, k) == fzero()) <==> (w == ky && forall|i: int| 0 <= i < rn() ==> #[trigger] product(r, i) == fzero() && spare(r, i) == fzero())) })
{
    rank(); identity(r, s, t, z); gates_in_z(r, z); let n = rn() as int; let w = sum(|i: int| read(r, s, i), rn()); let x = fadd(w, fneg(ky)); let m = (4 * rn() - 1) as nat;
    let (f, g) = (|k: int| fmul(gate_z(r, k), fpow(z, k as nat)), |k: int| fmul(error_z(r, w, ky, k), fpow(z, k as nat)));
    sum_front(f, 4 * rn()); sum_front(g, 4 * rn()); sum_ext(|k: int| f(k + 1), |k: int| g(k + 1), m); let tail = sum(|k: int| f(k + 1), m);
    assert(fpow(z, 0) == fone()); mul_one(gate_z(r, 0)); mul_one(fadd(gate_z(r, 0), x)); assert(g(0) == fadd(f(0), x)); let all = sum(f, 4 * rn());
    add_assoc(f(0), x, tail); add_comm(x, tail); add_assoc(f(0), tail, x); assert(sum(g, 4 * rn()) == fadd(all, x));
    add_assoc(w, all, fneg(ky)); add_comm(all, fneg(ky)); add_assoc(w, fneg(ky), all); add_comm(x, all);
    assert(revdot(r, s, t, z) == fadd(w, all)); assert(sum(g, 4 * rn()) == fadd(fadd(w, all), fneg(ky)));
    assert(sum(|k: int| fmul(error_z(r, w, ky, k), fpow(z, k as nat)), 4 * rn()) == sum(g, 4 * rn()));
    if forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] error_z(r, w, ky, k) == fzero() {
        assert forall|i: int| 0 <= i < n implies #[trigger] product(r, i) == fzero() && spare(r, i) == fzero() by { assert(error_z(r, w, ky, 2 * n + i) == product(r, i)); assert(error_z(r, w, ky, 4 * n - 1 - i) == spare(r, i)); }
        assert(error_z(r, w, ky, 0) == fadd(spare(r, 0), x)); assert(product(r, 0) == fzero()); azero(x); assert(x == fzero());
        add_assoc(w, fneg(ky), ky); add_comm(fneg(ky), ky); add_neg(ky); add_zero(w); azero(ky); assert(w == ky);
    }
    if w == ky && forall|i: int| 0 <= i < rn() ==> #[trigger] product(r, i) == fzero() && spare(r, i) == fzero() {
        add_neg(ky); add_zero(fzero());
        assert forall|k: int| 0 <= k < 4 * rn() implies #[trigger] error_z(r, w, ky, k) == fzero() by {
            assert(gate_z(r, k) == fzero()) by { if k < n { assert(product(r, k) == fzero()); } else if k < 2 * n { assert(product(r, 2 * n - 1 - k) == fzero()); } else if k < 3 * n { assert(product(r, k - 2 * n) == fzero()); } else { assert(product(r, 4 * n - 1 - k) == fzero()); } }
        }
        assert(forall|k: int| 0 <= k < 4 * rn() ==> #[trigger] error_z(r, w, ky, k) == fzero());
    }
}
"""
next(f for f in FUNCTIONS if f["name"] == "tz")["context"] = IDENTITY
next(f for f in FUNCTIONS if f["name"] == "tz")["title"] += "; the identity, as a polynomial in z, holds exactly when every gate holds and the wires read k(y)"

# ---- synthesis and k(y)
HF = "pub open spec fn hf(s: Seq<F>, x: F) -> F decreases s.len() { if s.len() == 0 { fzero() } else { fadd(fmul(hf(s.drop_last(), x), x), s.last()) } }\npub open spec fn k_at(s: Seq<F>, y: F) -> F { fadd(fmul(hf(s, y), y), fone()) }\n"
SYNTH = SUMS + """
pub enum Error { Other }
#[derive(Copy, Clone)]
pub enum Coeff { Zero, One, Two, NegativeOne, Arbitrary(F), NegativeArbitrary(F) }
#[verifier::external_body] pub struct Driver { x: u64 }
#[verifier::external_body] pub struct Wire { x: u64 }
#[verifier::external_body] pub struct El { x: u64 }
#[verifier::external_body] pub struct Lc { x: u64 }
pub uninterp spec fn one_() -> Wire;
pub uninterp spec fn single(w: Wire) -> Lc;
#[verifier::external_body] fn one_wire() -> (r: Wire) ensures r == one_() { unimplemented!() }
impl El { pub uninterp spec fn w(&self) -> Wire; #[verifier::external_body] fn wire(&self) -> (r: &Wire) ensures *r == self.w() { unimplemented!() } }
pub struct Orchestrated { pub degree_ky: usize }
#[verifier::external_body] pub struct Gate { x: u64 }
#[verifier::external_body] pub struct Output { x: u64 }
impl Gate { pub uninterp spec fn index(&self) -> int; }
/// the linear combinations that were required to be zero, in order, and the gates
impl Driver {
    pub uninterp spec fn log(&self) -> Seq<Lc>;
    pub uninterp spec fn gates(&self) -> nat;
    pub uninterp spec fn first(&self) -> (Coeff, Coeff, Coeff, Coeff);
    #[verifier::external_body] fn enforce_one(&mut self, w: &Wire) -> (r: Result<(), Error>) ensures r.is_ok() ==> final(self).log() == old(self).log().push(single(*w)) && final(self).gates() == old(self).gates() && final(self).first() == old(self).first() { unimplemented!() }
    #[verifier::external_body] fn gate(&mut self, v: (Coeff, Coeff, Coeff, Coeff)) -> (r: Result<Gate, Error>) ensures r.is_ok() ==> r->Ok_0.index() == old(self).gates() && final(self).gates() == old(self).gates() + 1 && final(self).log() == old(self).log() && (old(self).gates() == 0 ==> final(self).first() == v) { unimplemented!() }
}
pub uninterp spec fn body_() -> Seq<Lc>;
pub uninterp spec fn write_() -> Seq<Lc>;
pub uninterp spec fn out_() -> Seq<El>;
/// the circuit: given the first gate, it adds its own gates and constraints
#[verifier::external_body] fn circuit(dr: &mut Driver, gate: Gate) -> (r: Result<Output, Error>) requires gate.index() == 0, old(dr).gates() == 1 ensures r.is_ok() ==> final(dr).log() == old(dr).log() + body_() && final(dr).gates() >= 1 && final(dr).first() == old(dr).first() { unimplemented!() }
impl Output { #[verifier::external_body] fn write(&self, dr: &mut Driver, buf: &mut Vec<El>) -> (r: Result<(), Error>) ensures r.is_ok() ==> final(buf)@ == old(buf)@ + out_() && final(dr).log() == old(dr).log() + write_() && final(dr).gates() >= 1 && final(dr).first() == old(dr).first() { unimplemented!() } }
pub open spec fn singles(s: Seq<El>) -> Seq<Lc> { Seq::new(s.len(), |i: int| single(s[i].w())) }
pub open spec fn whole() -> Seq<Lc> { (body_() + write_() + singles(out_())).push(single(one_())) }
""" + HF + """
pub open spec fn read(s: Seq<Lc>, den: spec_fn(Lc) -> F) -> Seq<F> { Seq::new(s.len(), |i: int| den(s[i])) }
pub proof fn hf_front_zeros(w: Seq<F>, o: Seq<F>, y: F) requires forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == fzero() ensures hf(w + o, y) == hf(o, y) decreases w.len() + o.len() {
    let s = w + o;
    if o.len() > 0 { assert(s.drop_last() =~= w + o.drop_last()); assert(s.last() == o.last()); hf_front_zeros(w, o.drop_last(), y); }
    else if w.len() > 0 { assert(s =~= w); assert(s.drop_last() =~= w.drop_last() + o); hf_front_zeros(w.drop_last(), o, y); zmul(y); azero(fzero()); assert(s.last() == fzero()); }
    else { assert(s =~= o); }
}
/// C09: for an assignment that satisfies the circuit's own constraints, the combination of all constraints by powers of y is k(y) of the outputs
pub proof fn reads_k(den: spec_fn(Lc) -> F, y: F) requires den(single(one_())) == fone(), forall|i: int| 0 <= i < body_().len() ==> den(#[trigger] body_()[i]) == fzero(), forall|i: int| 0 <= i < write_().len() ==> den(#[trigger] write_()[i]) == fzero()
    ensures hf(read(whole(), den), y) == k_at(Seq::new(out_().len(), |i: int| den(single(out_()[i].w()))), y)
{
    let w = read(body_() + write_(), den); let o = read(singles(out_()), den); let a = read(whole(), den);
    assert(a.drop_last() =~= w + o); assert(a.last() == fone()); hf_front_zeros(w, o, y); assert(o =~= Seq::new(out_().len(), |i: int| den(single(out_()[i].w()))));
}
"""
HORN = SUMS + """
#[verifier::external_body] pub struct El { x: u64 }
#[verifier::external_body] pub struct Driver { x: u64 }
#[derive(Debug)] pub struct Error {}
pub type Res<T> = Result<T, Error>;
impl El {
    pub uninterp spec fn v(&self) -> F;
    #[verifier::external_body] fn zero(dr: &mut Driver) -> (r: El) ensures r.v() == fzero() { unimplemented!() }
    #[verifier::external_body] fn one() -> (r: El) ensures r.v() == fone() { unimplemented!() }
    #[verifier::external_body] fn mul(&self, dr: &mut Driver, o: &El) -> (r: Res<El>) ensures r.is_ok(), r.unwrap().v() == fmul(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body] fn add(&self, dr: &mut Driver, o: &El) -> (r: El) ensures r.v() == fadd(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body] fn wire(&self) -> (r: &F) ensures *r == self.v() { unimplemented!() }
}
impl Clone for El { #[verifier::external_body] fn clone(&self) -> (r: El) ensures r.v() == self.v() { unimplemented!() } }
pub struct Horner<'a> { pub point: &'a El, pub result: Option<El> }
impl<'a> Horner<'a> { pub open spec fn val(&self) -> F { match self.result { Some(e) => e.v(), None => fzero() } } }
"""
KYC = HORN + BUFFER + HF + """
impl<'a> Horner<'a> { #[verifier::external_body] fn finish_ky(self, dr: &mut Driver) -> (r: Res<El>) ensures r.is_ok(), r.unwrap().v() == fadd(fmul(self.val(), self.point.v()), fone()) { unimplemented!() } }
pub uninterp spec fn instance_() -> Seq<F>;
#[verifier::external_body] pub struct Instance { x: u64 }
#[verifier::external_body] fn extractor() -> (r: Driver) { unimplemented!() }
#[verifier::external_body] fn alloc(dr: &mut Driver, y: F) -> (r: Res<El>) ensures r.is_ok() ==> r->Ok_0.v() == y { unimplemented!() }
#[verifier::external_body] fn instance(dr: &mut Driver) -> (r: Res<Instance>) { unimplemented!() }
/// every element of the instance is written, in order, by Horner::write
impl Instance { #[verifier::external_body] fn write(&self, dr: &mut Driver, buf: &mut Horner) -> (r: Res<()>) requires old(buf).val() == fzero() ensures r.is_ok() ==> final(buf).point == old(buf).point && final(buf).val() == hf(instance_(), old(buf).point.v()) { unimplemented!() } }
"""
FUNCTIONS += [
    dict(name="orchestrate", file=RAW, title="the first gate is all zero and goes to the circuit; then the circuit's constraints, one constraint per output in order, and last the wire ONE; the degree of k is the number of outputs", sig="fn orchestrate(dr: &mut Driver) -> (r: Result<Orchestrated, Error>)", context=SYNTH,
         rewrite=[(r"dr\.gate\(\|\|\s*Ok\((\([^()]*\))\)\)", r"dr.gate(\1)", "the closure's values"), (r"GateWires::from\((.*?\?)\)", r"\1", "names for the four wires"), (r"\w+\.witness\(dr, (\w+), \w+\)\?\s*\.into_output\(\)", r"circuit(dr, \1)?", "the circuit's synthesis"),
                  (r"Vec<ragu_primitives::Element<'dr, D>>", "Vec<El>", "the element"), (r"dr\.enforce_zero\(\|(\w+)\|\s*\1\.add\(((?:[^()]|\(\))*)\)\)", r"dr.enforce_one(\2)", "the combination of one wire"), (r"&D::ONE", "&one_wire()", "the wire ONE")],
         spec="requires old(dr).log().len() == 0, old(dr).gates() == 0 ensures r.is_ok() ==> final(dr).log() == whole() && final(dr).first() == (Coeff::Zero, Coeff::Zero, Coeff::Zero, Coeff::Zero) && r->Ok_0.degree_ky == out_().len(),",
         names={"o": r"let mut (\w+): Vec<"}, loops=[dict(inv="invariant it0.seq().len() == $o@.len(), forall|i: int| 0 <= i < $o@.len() ==> *(#[trigger] it0.seq()[i]) == $o@[i], $o@ == out_(), it0.index() <= out_().len(), dr.log() == body_() + write_() + singles(out_().take(it0.index() as int)), dr.first() == (Coeff::Zero, Coeff::Zero, Coeff::Zero, Coeff::Zero),",
            before="proof { assert($o@ =~= out_()); assert(dr.log() =~= body_() + write_() + singles(out_().take(0))); }", end="proof { let k = it0.index() as int; assert(singles(out_().take(k + 1)) =~= singles(out_().take(k)).push(single(out_()[k].w()))); assert(dr.log() =~= body_() + write_() + singles(out_().take(k + 1))); }", after="proof { assert(out_().take(out_().len() as int) =~= out_()); }")]),
    dict(name="ky::eval", fn="eval", file=KY, title="k(y): the instance's elements by Horner's rule, times y, plus one", sig="fn eval(y: F) -> (r: Res<F>)", context=KYC,
         rewrite=[(r"Emulator::extractor\(\)", "extractor()", "the emulator"), (r"Element::alloc\(&mut (\w+), Always::<F>::just\(\|\| (\w+)\)\)", r"alloc(&mut \1, \2)", "allocation"), (r"crate::horner::Horner", "Horner", "the path"), (r"\w+\s*\.instance\(&mut (\w+), Always::maybe_just\(\|\| \w+\)\)", r"instance(&mut \1)", "the circuit's instance")],
         spec="ensures r.is_ok() ==> r->Ok_0 == k_at(instance_(), y),"),
]
FUNCTIONS += [dict(f, context=HORN + f.get("context", "")) for f in C19 if f["name"].startswith("Horner::")]

ZEROES = T + """
pub proof fn pow_zero(k: nat) requires k >= 1 ensures fpow(fzero(), k) == fzero() { mul_zero(fpow(fzero(), (k - 1) as nat)); }
pub proof fn sum_zeros(f: spec_fn(int) -> F, n: nat) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == fzero() ensures sum(f, n) == fzero() decreases n { if n > 0 { sum_zeros(f, (n - 1) as nat); add_zero(fzero()); assert(f(n - 1) == fzero()); } }
/// t is zero wherever one of its points is
pub proof fn t_zero(x: F, z: F) requires x == fzero() || z == fzero() ensures t_at(x, z) == fzero() {
    rank(); let f = |j: int| fmul(fpow(x, pc(j)), pair(z, j));
    assert forall|j: int| 0 <= j < rn() implies #[trigger] f(j) == fzero() by { if x == fzero() { pow_zero(pc(j)); zmul(pair(z, j)); } else { pow_zero(pa(j)); pow_zero(pb(j)); add_zero(fzero()); mul_zero(fpow(x, pc(j))); } }
    sum_zeros(f, rn()); neg_zero();
}
/// the routine by its contract
#[verifier::external_body] fn routine(x: F, z: F) -> (r: F) requires x != fzero(), z != fzero() ensures r == t_at(x, z) { unimplemented!() }
"""
FUNCTIONS += [dict(name="Rank::txz", fn="txz", file=POLY, title="t(x, z), also where a point is zero", sig="fn txz(x: F, z: F) -> (r: F)", context=ZEROES,
                   rewrite=[(r"use [\w:]+(?:::\{[^;]*\})?;", "", "imports"), (r"\*Emulator::emulate_wireless\(\((\w+), (\w+)\),.*\.take\(\)", r"routine(\1, \2)", "the emulated routine, by its contract"), (r"(\w+) == F::ZERO", r"\1.eq_(F::ZERO)", "comparison of field elements")],
                   spec="ensures r == t_at(x, z),", pre="proof { if x == fzero() || z == fzero() { t_zero(x, z); } }")]
