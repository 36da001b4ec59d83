"""C06, unbounded: the multi-scalar multiplication for every number of terms and every scalar.

The window decomposition (`bucket_lookup`, `get_at`) enters by its contract, which Kani discharges for all values."""
import re

from group import group

FILE = "crates/ragu_arithmetic/src/util.rs"
ASSUME = ["vectors of scalars and bases have the same length (documented precondition of mul)",
          "a scalar's canonical representation is below 2^NUM_BITS (contract of ff::PrimeField)"]

PRELUDE = "#![allow(unused)]\nuse vstd::prelude::*;\nverus! {\n" + group() + """
pub mod code {
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use super::gr::*;
use super::gr::glaw::*;

#[derive(Clone, Copy)]
pub enum Bucket { None, Affine(A), Projective(G) }
pub open spec fn bval(b: Bucket) -> G { match b { Bucket::None => gzero(), Bucket::Affine(a) => pt(a), Bucket::Projective(p) => p } }
/// summation by parts from the top bucket down to bucket j
pub open spec fn run(b: Seq<Bucket>, j: int) -> G decreases b.len() - j { if j >= b.len() { gzero() } else { gadd(bval(b[j]), run(b, j + 1)) } }
pub open spec fn acc(b: Seq<Bucket>, j: int) -> G decreases b.len() - j { if j >= b.len() { gzero() } else { gadd(acc(b, j + 1), run(b, j)) } }
pub proof fn acc_empty(b: Seq<Bucket>, j: int)
    requires 0 <= j <= b.len(), forall|k: int| 0 <= k < b.len() ==> bval(#[trigger] b[k]) == gzero()
    ensures run(b, j) == gzero(), acc(b, j) == gzero()
    decreases b.len() - j
{ gid(gzero()); if j < b.len() { acc_empty(b, j + 1); assert(bval(b[j]) == gzero()); } }
/// adding a point to bucket d adds it d + 1 times to the summation by parts
pub proof fn acc_update(b: Seq<Bucket>, c: Seq<Bucket>, d: int, p: G, j: int)
    requires 0 <= d < b.len(), 0 <= j <= b.len(), b.len() == c.len(), bval(c[d]) == gadd(bval(b[d]), p),
        forall|k: int| 0 <= k < b.len() && k != d ==> c[k] == b[k],
    ensures
        run(c, j) == (if j <= d { gadd(run(b, j), p) } else { run(b, j) }),
        acc(c, j) == (if j <= d { gadd(acc(b, j), smul((d - j + 1) as nat, p)) } else { acc(b, j) }),
    decreases b.len() - j
{
    if j < b.len() {
        acc_update(b, c, d, p, j + 1);
        if j == d {
            gassoc(bval(b[d]), p, run(b, d + 1)); gcomm(p, run(b, d + 1)); gassoc(bval(b[d]), run(b, d + 1), p);
            gassoc(acc(b, d + 1), run(b, d), p);
            smul_one(p);
        } else if j < d {
            gassoc(bval(b[j]), run(b, j + 1), p);
            gadd4(acc(b, j + 1), smul((d - j) as nat, p), run(b, j), p);
            assert((d - j + 1) as nat - 1 == d - j);
        }
    }
}
/// sum over the first k terms of v[i] times base i
pub open spec fn lin(v: spec_fn(int) -> nat, b: Seq<A>, k: int) -> G decreases k {
    if k <= 0 { gzero() } else { gadd(lin(v, b, k - 1), smul(v(k - 1), pt(b[k - 1]))) }
}
pub proof fn lin_ext(v: spec_fn(int) -> nat, w: spec_fn(int) -> nat, b: Seq<A>, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] v(i) == w(i)
    ensures lin(v, b, k) == lin(w, b, k)
    decreases k
{ if k > 0 { lin_ext(v, w, b, k - 1); assert(v(k - 1) == w(k - 1)); } }
/// lin(m u + d) = m lin(u) + lin(d)
pub proof fn lin_horner(v: spec_fn(int) -> nat, u: spec_fn(int) -> nat, d: spec_fn(int) -> nat, m: nat, b: Seq<A>, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] v(i) == m * u(i) + d(i)
    ensures lin(v, b, k) == gadd(smul(m, lin(u, b, k)), lin(d, b, k))
    decreases k
{
    if k <= 0 { smul_zero(m); gid(gzero()); } else {
        lin_horner(v, u, d, m, b, k - 1);
        let p = pt(b[k - 1]);
        assert(v(k - 1) == m * u(k - 1) + d(k - 1));
        smul_add(m * u(k - 1), d(k - 1), p); smul_mul(m, u(k - 1), p);
        smul_dist(m, lin(u, b, k - 1), smul(u(k - 1), p));
        gadd4(smul(m, lin(u, b, k - 1)), lin(d, b, k - 1), smul(m, smul(u(k - 1), p)), smul(d(k - 1), p));
    }
}
pub proof fn lin_zero(v: spec_fn(int) -> nat, b: Seq<A>, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] v(i) == 0
    ensures lin(v, b, k) == gzero()
    decreases k
{ if k > 0 { lin_zero(v, b, k - 1); assert(v(k - 1) == 0); gid(gzero()); } }

/// a scalar's canonical representation, its integer, and its base-2^c digits
#[verifier::external_body] pub struct Repr { x: u64 }
pub uninterp spec fn val(r: Repr) -> nat;
pub uninterp spec fn num_bits() -> nat;
pub axiom fn val_bound(r: Repr) ensures val(r) < pow2(num_bits());
pub open spec fn digit(r: Repr, seg: nat, c: nat) -> nat { (val(r) / pow2(seg * c)) % pow2(c) }
#[verifier::external_body] pub fn get_at(segment: usize, c: usize, r: &Repr) -> (d: usize)
    requires 1 <= c < 32, ensures d == digit(*r, segment as nat, c as nat), d < pow2(c as nat) { loop{} }
#[verifier::external_body] pub fn bucket_lookup(n: usize) -> (c: usize) ensures 1 <= c < 32 { loop{} }
pub open spec fn digits(r: Seq<Repr>, seg: nat, c: nat) -> spec_fn(int) -> nat { |i: int| digit(r[i], seg, c) }
pub open spec fn upper(r: Seq<Repr>, seg: nat, c: nat) -> spec_fn(int) -> nat { |i: int| val(r[i]) / pow2(seg * c) }
pub open spec fn vals(r: Seq<Repr>) -> spec_fn(int) -> nat { |i: int| val(r[i]) }
pub proof fn peel(r: Seq<Repr>, seg: nat, c: nat, b: Seq<A>, k: int)
    ensures lin(upper(r, seg, c), b, k) == gadd(smul(pow2(c), lin(upper(r, seg + 1, c), b, k)), lin(digits(r, seg, c), b, k))
{
    assert forall|i: int| 0 <= i < k implies #[trigger] upper(r, seg, c)(i) == pow2(c) * upper(r, seg + 1, c)(i) + digits(r, seg, c)(i) by {
        let v = val(r[i]); let p = pow2(seg * c); let q = pow2(c);
        lemma_pow2_pos(seg * c); lemma_pow2_pos(c);
        assert((seg + 1) * c == seg * c + c) by (nonlinear_arith);
        lemma_pow2_adds(seg * c, c);
        lemma_div_denominator(v as int, p as int, q as int);
        lemma_fundamental_div_mod((v / p) as int, q as int);
    }
    lin_horner(upper(r, seg, c), upper(r, seg + 1, c), digits(r, seg, c), pow2(c), b, k);
}
pub proof fn top_is_zero(r: Seq<Repr>, segs: nat, c: nat, b: Seq<A>, k: int)
    requires segs * c >= num_bits()
    ensures lin(upper(r, segs, c), b, k) == gzero()
{
    assert forall|i: int| 0 <= i < k implies #[trigger] upper(r, segs, c)(i) == 0 by {
        val_bound(r[i]);
        if segs * c > num_bits() { lemma_pow2_strictly_increases(num_bits(), segs * c); }
        lemma_basic_div(val(r[i]) as int, pow2(segs * c) as int);
    }
    lin_zero(upper(r, segs, c), b, k);
}
//@CODE
}
}
"""

BUCKET = r"impl<C: CurveAffine> Bucket<C>"
METHODS = """
impl Bucket {
    #[verifier::external_body] fn add_assign(&mut self, other: &A) ensures bval(*final(self)) == gadd(bval(*old(self)), pt(*other)) { loop{} }
    #[verifier::external_body] fn add(self, other: G) -> (r: G) ensures r == gadd(bval(self), other) { loop{} }
}
"""


def drop_items(body):
    """Removes nested items (functions, enums, impls): each is verified on its own."""
    from verus import body_open, close, mask
    while True:
        m = mask(body)
        h = re.search(r"^\s*((?:#\[[^\]]*\]\s*)*)(?:fn|enum|impl)\b", m, re.M)
        if not h:
            return body
        o = body_open(m, h.end())
        body = body[:h.start()] + body[close(m, o) + 1:]


FUNCTIONS = [
    dict(
        name="Bucket::add_assign", fn="add_assign", within=BUCKET, file=FILE, title="a bucket gains exactly the point",
        sig="pub fn add_assign(self_: &mut Bucket, other: &A)",
        spec="ensures bval(*final(self_)) == gadd(bval(*old(self_)), pt(*other)),",
        rewrite=[(r"\bself\b", "self_", "the receiver becomes a parameter")],
        pre="proof { gcomm(gzero(), pt(*other)); gid(pt(*other)); }",
        loops=[],
    ),
    dict(
        name="Bucket::add", fn="add", within=BUCKET, file=FILE, title="the bucket's point plus the other",
        sig="pub fn add(self_: Bucket, other_: G) -> (r: G)",
        spec="ensures r == gadd(bval(self_), other_),",
        rewrite=[(r"\bself\b", "self_", "the receiver becomes a parameter")],
        pre="let mut other = other_; proof { gcomm(gzero(), other); gid(other); gcomm(other_, bval(self_)); }",
        loops=[],
    ),
    dict(
        name="window_sum", file=FILE, title="the sum of digit times base, for any number of terms and any window",
        sig="pub fn window_sum(current_segment: usize, c: usize, coeffs: &[Repr], bases: &[A]) -> (result: G)",
        spec="""requires 1 <= c < 32, coeffs.len() == bases.len(),
            ensures result == lin(digits(coeffs@, current_segment as nat, c as nat), bases@, coeffs.len() as int),""",
        context=METHODS,
        names={"run": r"let mut (\w+) = C::Curve::identity\(\);\s*let mut \w+ = C::Curve::identity", "sum": r"let mut \w+ = C::Curve::identity\(\);\s*let mut (\w+) = C::Curve::identity",
               "buckets": r"let mut (\w+): Vec<Bucket"},
        rewrite=[
            (r"C::Curve::", "G::", "the curve is the abstract group"),
            (r"::<C::Scalar>", "", "the scalar field is abstract"),
            (r"Vec<Bucket<C>>", "Vec<Bucket>", "the curve is the abstract group"),
            (r"for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.zip\((\w+)\) \{", r"for i__ in 0..\3.len() { let \1 = &\3[i__]; let \2 = &\4[i__];", "zip of equally long sequences is the loop over both"),
        ],
        pre="let ghost D = digits(coeffs@, current_segment as nat, c as nat); proof { lemma_pow2_pos(c as nat); } assert(c < 32 ==> (1usize << c) >= 1) by (bit_vector);",
        loops=[
            dict(before="""proof {
                    lemma2_to64(); if c < 31 { lemma_pow2_strictly_increases(c as nat, 31); }
                    vstd::bits::lemma_usize_shl_is_mul(1, c);
                    assert forall|k: int| 0 <= k < $buckets.len() implies bval(#[trigger] $buckets@[k]) == gzero() by { assert($buckets@[k] == Bucket::None); }
                    acc_empty($buckets@, 0);
                 }""",
                 inv="""invariant 1 <= c < 32, coeffs.len() == bases.len(), D == digits(coeffs@, current_segment as nat, c as nat),
                    $buckets.len() == pow2(c as nat) - 1, acc($buckets@, 0) == lin(D, bases@, it0.index() as int),""",
                 start="""let ghost b__ = $buckets@; let ghost i_ = it0.index() as int;""",
                 end="""proof {
                    let d = D(i_); let p = pt(bases@[i_]);
                    if d == 0 { gid(lin(D, bases@, i_)); }
                    else { acc_update(b__, $buckets@, d - 1, p, 0); }
                 }"""),
            dict(before="let ghost bk__ = $buckets@;", inv="""invariant $run == run(bk__, bk__.len() - it1.index()), $sum == acc(bk__, bk__.len() - it1.index()),
                    it1.seq().len() == bk__.len(), forall|k: int| 0 <= k < bk__.len() ==> (#[trigger] it1.seq()[k]) == bk__[bk__.len() - 1 - k],"""),
        ],
    ),
    dict(
        name="mul", file=FILE, title="the sum of scalar times base, for any number of terms and all scalars",
        sig="pub fn mul(coeffs_: &[Scalar], bases: &[A]) -> (result: G)",
        spec="""requires coeffs_.len() == bases.len(), num_bits() == NUM_BITS,
            ensures exists|r: Seq<Repr>| #[trigger] lin(vals(r), bases@, coeffs_.len() as int) == result && r.len() == coeffs_.len()
                && forall|i: int| 0 <= i < r.len() ==> #[trigger] val(r[i]) == scalar(coeffs_@[i]),""",
        cut=drop_items,
        context="""
#[verifier::external_body] pub struct Scalar { x: u64 }
pub uninterp spec fn scalar(s: Scalar) -> nat;
pub const NUM_BITS: u32 = 255;
#[verifier::external_body] pub fn to_reprs(s: &[Scalar]) -> (r: Vec<Repr>)
    ensures r.len() == s.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] val(r@[i]) == scalar(s@[i]) { loop{} }
#[verifier::external_body] pub fn window_sum(current_segment: usize, c: usize, coeffs: &[Repr], bases: &[A]) -> (result: G)
    requires 1 <= c < 32, coeffs.len() == bases.len(),
    ensures result == lin(digits(coeffs@, current_segment as nat, c as nat), bases@, coeffs.len() as int) { loop{} }
#[verifier::external_body] pub fn div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0, ensures r * b >= a, a > 0 ==> (r - 1) * b < a, a == 0 ==> r == 0 { a.div_ceil(b) }
""",
        names={"acc": r"let mut (\w+) = C::Curve::identity\(\)", "segs": r"let (\w+) = \(C::Scalar::NUM_BITS as usize\)", "sums": r"let (\w+): Vec<C::Curve>"},
        rewrite=[
            (r"coeffs\.into_iter\(\)\.map\(\|\w+\| \w+\.to_repr\(\)\)\.collect\(\)", "to_reprs(coeffs_)", "map over the scalars keeps their order"),
            (r"let coeffs: Vec<_>", "let coeffs: Vec<Repr>", "inferred type"),
            (r"let bases_iter = bases\.into_iter\(\);", "", "cloning the iterator restarts the bases"),
            (r"\(C::Scalar::NUM_BITS as usize\)\.div_ceil\((\w+)\)", r"div_ceil(NUM_BITS as usize, \1)", "usize::div_ceil"),
            (r"let (\w+): Vec<C::Curve> = \(0\.\.(\w+)\)\s*\.into_par_iter\(\)\s*\.map\(\|(\w+)\| window_sum\(([^|]*?)bases_iter\.clone\(\)\)\)\s*\.collect\(\);",
             r"let mut \1: Vec<G> = Vec::new(); for \3 in 0..\2 { \1.push(window_sum(\4bases)); }", "a parallel map collects the results in index order"),
            (r"C::Curve::", "G::", "the curve is the abstract group"),
        ],
        loops=[
            dict(inv="""invariant 1 <= c < 32, coeffs.len() == bases.len(), $sums.len() == it0.index(), it0.seq().len() == $segs, it0.index() <= $segs,
                    forall|k: int| 0 <= k < it0.index() ==> (#[trigger] it0.seq()[k]) == k,
                    forall|k: int| 0 <= k < it0.seq().len() ==> (#[trigger] it0.seq()[k]) == k,
                    forall|k: int| 0 <= k < $sums.len() ==> #[trigger] $sums@[k] == lin(digits(coeffs@, k as nat, c as nat), bases@, coeffs.len() as int),"""),
            dict(before="let ghost ws__ = $sums@; proof { top_is_zero(coeffs@, $segs as nat, c as nat, bases@, coeffs.len() as int); }",
                 inv="""invariant 1 <= c < 32, ws__.len() == $segs, it1.seq().len() == $segs, it1.index() <= $segs,
                    forall|k: int| 0 <= k < ws__.len() ==> (#[trigger] it1.seq()[k]) == ws__[ws__.len() - 1 - k],
                    forall|k: int| 0 <= k < ws__.len() ==> #[trigger] ws__[k] == lin(digits(coeffs@, k as nat, c as nat), bases@, coeffs.len() as int),
                    $acc == lin(upper(coeffs@, ($segs - it1.index()) as nat, c as nat), bases@, coeffs.len() as int),""",
                 after="""proof {
                    lemma2_to64();
                    lin_ext(upper(coeffs@, 0, c as nat), vals(coeffs@), bases@, coeffs.len() as int);
                    assert(lin(vals(coeffs@), bases@, coeffs_.len() as int) == $acc);
                 }""",
                 start="let ghost a__ = $acc; let ghost s__ = ($segs - it1.index() - 1) as nat; proof { smul_one(a__); lemma2_to64(); peel(coeffs@, s__, c as nat, bases@, coeffs.len() as int); }"),
            dict(inv="invariant it2.index() <= c, it2.seq().len() == c, $acc == smul(pow2(it2.index() as nat), a__),",
                 start="proof { let p = pow2(it2.index() as nat); let g = smul(p, a__); smul_two(g); smul_mul(2, p, a__); lemma_pow2_unfold((it2.index() + 1) as nat); }"),
        ],
    ),
]
