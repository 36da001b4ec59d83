"""C04, unbounded: the loops of ragu_arithmetic/src/util.rs for every input length."""
from field import prelude

FILE = "crates/ragu_arithmetic/src/util.rs"

POLY = """
/// p(x) = sum of s[i] x^i
pub open spec fn value(s: Seq<F>, x: F) -> F decreases s.len() {
    if s.len() == 0 { fzero() } else { fadd(value(s.drop_last(), x), fmul(s.last(), fpow(x, (s.len() - 1) as nat))) }
}
/// value of s[k..] shifted down by k: the Horner state
pub open spec fn upper(s: Seq<F>, k: int, x: F) -> F decreases s.len() - k {
    if k >= s.len() { fzero() } else { fadd(s[k], fmul(upper(s, k + 1, x), x)) }
}
pub open spec fn partial(s: Seq<F>, k: int, x: F) -> F decreases k {
    if k <= 0 { fzero() } else { fadd(partial(s, k - 1, x), fmul(s[k - 1], fpow(x, (k - 1) as nat))) }
}
pub proof fn partial_is_value(s: Seq<F>, k: int, x: F)
    requires 0 <= k <= s.len()
    ensures partial(s, k, x) == value(s.take(k), x)
    decreases k
{
    if k > 0 {
        partial_is_value(s, k - 1, x);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
    } else { assert(s.take(0).len() == 0); }
}
/// splitting at k: p(x) = (terms below k) + x^k * upper(k)
pub proof fn split(s: Seq<F>, k: int, x: F)
    requires 0 <= k <= s.len()
    ensures value(s, x) == fadd(partial(s, k, x), fmul(fpow(x, k as nat), upper(s, k, x)))
    decreases s.len() - k
{
    let p = fpow(x, k as nat);
    if k == s.len() {
        mul_zero(p);
        partial_is_value(s, k, x);
        assert(s.take(k) =~= s);
        add_zero(value(s, x));
    } else {
        split(s, k + 1, x);
        let u = upper(s, k + 1, x);
        // partial(k+1) + x^(k+1) u = partial(k) + s_k x^k + x^k x u = partial(k) + x^k (s_k + u x)
        mul_assoc(p, x, u); mul_comm(x, u);
        distr(p, s[k], fmul(u, x));
        mul_comm(p, s[k]);
        add_assoc(partial(s, k, x), fmul(s[k], p), fmul(p, fmul(u, x)));
    }
}
pub proof fn horner_is_value(s: Seq<F>, x: F) ensures upper(s, 0, x) == value(s, x) {
    split(s, 0, x);
    let u = upper(s, 0, x);
    mul_comm(fone(), u); mul_one(u);
    add_comm(fzero(), u); add_zero(u);
}
pub open spec fn inner(a: Seq<F>, b: Seq<F>, k: int) -> F decreases k {
    if k <= 0 { fzero() } else { fadd(inner(a, b, k - 1), fmul(a[k - 1], b[k - 1])) }
}
/// 1 + r + ... + r^(m-1)
pub open spec fn geo(r: F, m: nat) -> F decreases m { if m == 0 { fzero() } else { fadd(geo(r, (m - 1) as nat), fpow(r, (m - 1) as nat)) } }
pub proof fn geo_add(r: F, m: nat, n: nat) ensures geo(r, m + n) == fadd(geo(r, m), fmul(fpow(r, m), geo(r, n))) decreases n {
    if n == 0 { mul_zero(fpow(r, m)); add_zero(geo(r, m)); } else {
        let k = (n - 1) as nat;
        geo_add(r, m, k);
        assert((m + n - 1) as nat == m + k);
        pow_add(r, m, k);
        distr(fpow(r, m), geo(r, k), fpow(r, k));
        add_assoc(geo(r, m), fmul(fpow(r, m), geo(r, k)), fmul(fpow(r, m), fpow(r, k)));
    }
}
pub proof fn pow_one(r: F) ensures fpow(r, 1) == r {
    reveal_with_fuel(fpow, 2); mul_comm(fone(), r); mul_one(r);
}
pub proof fn geo_one(r: F) ensures geo(r, 1) == fone() {
    reveal_with_fuel(geo, 2); add_comm(fzero(), fone()); add_zero(fone());
}
/// q is the quotient of p(X) - p(b) by (X - b), lowest degree first: p(x) - p(b) = (x - b) q(x) at every x
pub open spec fn is_quotient(a: Seq<F>, b: F, q: Seq<F>) -> bool {
    q.len() == a.len() - 1 && forall|x: F| fsub(value(a, x), value(a, b)) == fmul(fsub(x, b), #[trigger] value(q, x))
}
pub proof fn states_are_quotient(a: Seq<F>, b: F, q: Seq<F>)
    requires a.len() >= 1, q.len() == a.len() - 1, forall|j: int| 0 <= j < q.len() ==> #[trigger] q[j] == upper(a, j + 1, b)
    ensures is_quotient(a, b, q)
{
    assert forall|x: F| fsub(value(a, x), value(a, b)) == fmul(fsub(x, b), #[trigger] value(q, x)) by {
        quotient_at(a, b, q, 0, x);
        horner_is_value(a, x); horner_is_value(a, b); horner_is_value(q, x);
    }
}
pub proof fn neg_zero() ensures fneg(fzero()) == fzero() {
    add_neg(fzero()); add_comm(fzero(), fneg(fzero())); add_zero(fneg(fzero()));
}
pub proof fn add4(a: F, b: F, c: F, d: F) ensures fadd(fadd(a, b), fadd(c, d)) == fadd(fadd(a, c), fadd(b, d)) {
    add_assoc(a, b, fadd(c, d)); add_assoc(b, c, d); add_comm(b, c); add_assoc(c, b, d); add_assoc(a, c, fadd(b, d));
}
pub proof fn neg_add(a: F, b: F) ensures fneg(fadd(a, b)) == fadd(fneg(a), fneg(b)) {
    let s = fadd(a, b); let t = fadd(fneg(a), fneg(b));
    add4(a, b, fneg(a), fneg(b)); add_neg(a); add_neg(b); add_zero(fzero());
    add_neg(s); add_assoc(fneg(s), s, t); add_comm(fneg(s), s); add_comm(fzero(), t); add_zero(t); add_zero(fneg(s));
}
pub proof fn quotient_at(a: Seq<F>, b: F, q: Seq<F>, k: int, x: F)
    requires 0 <= k <= q.len(), q.len() == a.len() - 1, forall|j: int| 0 <= j < q.len() ==> #[trigger] q[j] == upper(a, j + 1, b)
    ensures fsub(upper(a, k, x), upper(a, k, b)) == fmul(fsub(x, b), upper(q, k, x))
    decreases q.len() - k
{
    let d = fsub(x, b);
    if k == q.len() {
        assert(upper(a, k + 1, x) == fzero() && upper(a, k + 1, b) == fzero());
        mul_comm(fzero(), x); mul_comm(fzero(), b); mul_zero(x); mul_zero(b); add_zero(a[k]);
        add_neg(a[k]); mul_zero(d);
    } else {
        quotient_at(a, b, q, k + 1, x);
        let (ux, ub, qx) = (upper(a, k + 1, x), upper(a, k + 1, b), upper(q, k + 1, x));
        // (a_k + ux x) - (a_k + ub b) = ux x - ub b
        let (p, r) = (fmul(ux, x), fmul(ub, b));
        neg_add(a[k], r); add4(a[k], p, fneg(a[k]), fneg(r)); add_neg(a[k]); add_comm(fzero(), fsub(p, r)); add_zero(fsub(p, r));
        // d (ub + qx x) = d ub + (d qx) x = d ub + (ux - ub) x
        distr(d, ub, fmul(qx, x)); mul_assoc(d, qx, x);
        // (ux - ub) x = ux x - ub x
        mul_comm(fsub(ux, ub), x); distr(x, ux, fneg(ub)); neg_mul(x, ub); mul_comm(x, ux); mul_comm(x, ub);
        // d ub = ub x - ub b
        mul_comm(d, ub); distr(ub, x, fneg(b)); neg_mul(ub, b);
        let m = fmul(ub, x);
        // (m - r) + (p - m) = p - r
        add4(m, fneg(r), p, fneg(m)); add_comm(m, p); add_comm(fneg(r), fneg(m)); add4(p, m, fneg(m), fneg(r));
        add_comm(fneg(m), fneg(r)); add4(p, m, fneg(r), fneg(m)); add_neg(m); add_zero(fsub(p, r));
    }
}
"""
PRELUDE = prelude(POLY)

DOWN = """
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
/// The double-ended sequence an argument stands for, and its reversed, peekable iterator.
#[verifier::external_body] pub struct Seq_ { x: Vec<F> }
impl View for Seq_ { type V = Seq<F>; uninterp spec fn view(&self) -> Seq<F>; }
#[verifier::external_body] pub struct Down { x: Vec<F> }
impl View for Down { type V = Seq<F>; uninterp spec fn view(&self) -> Seq<F>; }
impl Seq_ { #[verifier::external_body] fn down(&self) -> (r: Down) ensures r@ == self@ { unimplemented!() } }
impl Down {
    #[verifier::external_body] fn peek(&mut self) -> (r: Option<&F>)
        ensures final(self)@ == old(self)@, r.is_some() == (old(self)@.len() > 0), r.is_some() ==> *r.unwrap() == old(self)@.last() { unimplemented!() }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<F>)
        ensures r.is_some() == (old(self)@.len() > 0),
            r.is_some() ==> r.unwrap() == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            r.is_none() ==> final(self)@ == old(self)@ { unimplemented!() }
}
"""


def closure(m):
    import re
    b = m[1]
    b = re.sub(r"let (\w+) = ([\w.()]+)\?;", r"let \1 = match \2 { Some(v__) => v__, None => break };", b)
    b = re.sub(r"([\w.()]+)\?;", r"match \1 { Some(_) => (), None => break };", b)
    b = re.sub(r"return None;?", "break;", b)
    b = re.sub(r"Some\((\w+)\)\s*$", r"out__.push(\1);", b)
    return "let mut out__: Vec<F> = Vec::new(); loop {" + b + "} out__"


FUNCTIONS = [
    dict(
        name="eval", file=FILE, title="the sum of coefficient times power, for every length",
        sig="pub fn eval(coeffs: &[F], x: F) -> (result: F)",
        spec="ensures result == value(coeffs@, x),",
        names={"acc": r"let mut (\w+)(?:\s*:\s*F)?\s*=\s*F::ZERO"},
        loops=[dict(inv="""invariant $acc == upper(coeffs@, coeffs.len() - it0.index(), x),
            it0.seq().len() == coeffs.len(),
            forall|k: int| 0 <= k < coeffs.len() ==> *(#[trigger] it0.seq()[k]) == coeffs@[coeffs.len() - 1 - k],""",
            start="let ghost u__ = $acc; proof { add_comm(fmul(u__, x), coeffs@[coeffs.len() - 1 - it0.index()]); }")],
        post="proof { horner_is_value(coeffs@, x); }",
    ),
    dict(
        name="dot", file=FILE, title="the sum of products, for every length; unequal lengths are refused",
        sig="pub fn dot(a: &[F], b: &[F]) -> (result: F)",
        spec="ensures result == inner(a@, b@, a.len() as int), a.len() == b.len(),",
        pre="let ghost a0 = a@; let ghost b0 = b@;",
        rewrite=[
            (r"assert_eq!\(a\.len\(\), b\.len\(\)\);", "refuse_unless(a.len() == b.len());", "assert_eq! panics unless equal"),
            (r"let (\w+) = \1\.into_iter\(\);", r"", "converting a slice to its iterator keeps its items"),
            (r"a\s*(?:\.into_iter\(\)\s*)?\.zip\(b(?:\.into_iter\(\))?\)\s*\.map\(\|\((\w+), (\w+)\)\| ([^|]*?)\)\s*\.fold\(([^,]*), \|(\w+), (\w+)\| ([^|]*?)\)\s*$",
             r"let mut \5 = \4; for i__ in 0..a.len() { let \1 = &a[i__]; let \2 = &b[i__]; let \6 = \3; \5 = \7; } \5",
             "Iterator::zip, map and fold are the loop over both sides"),
        ],
        context="#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }",
        loops=[dict(inv="invariant acc == inner(a0, b0, it0.index() as int), a@ == a0, b@ == b0, a.len() == b.len(),")],
        names={},
    ),
    dict(
        name="geosum", file=FILE, title="1 + r + ... + r^(m-1), for every r and m",
        sig="pub fn geosum(r_: F, m_: usize) -> (result: F)",
        spec="ensures result == geo(r_, m_ as nat),",
        pre="""let mut r = r_; let mut m = m_;
            let ghost p: nat = 1; let ghost q: nat = 0;
            proof { pow_one(r_); geo_one(r_); }""",
        names={"block": r"let mut (\w+) = F::ONE;\s*let mut \w+ = F::ZERO", "sum": r"let mut (\w+) = F::ZERO", "step": r"let mut (\w+) = F::ONE;\s*while"},
        loops=[dict(inv="""invariant m_ == m * p + q, q < p,
                r == fpow(r_, p), $block == geo(r_, p), $step == fpow(r_, q), $sum == geo(r_, q),
            decreases m,""",
            start="""let ghost m__ = m; let ghost p__ = p; let ghost q__ = q;
                assert(m__ == 2 * (m__ >> 1) + (m__ & 1)) by (bit_vector);
                assert((m__ & 1) == 0 || (m__ & 1) == 1) by (bit_vector);
                assert((m__ >> 1) < m__) by (bit_vector) requires m__ > 0;
                proof {
                    if (m__ & 1) == 1 { q = q + p; geo_add(r_, q__, p__); pow_add(r_, q__, p__); }
                    p = p + p;
                    geo_add(r_, p__, p__); pow_add(r_, p__, p__);
                    assert(m_ == (m__ >> 1) * p + q) by (nonlinear_arith)
                        requires m_ == m__ * p__ + q__, m__ == 2 * (m__ >> 1) + (m__ & 1), p == p__ + p__, (m__ & 1) == 0 || (m__ & 1) == 1,
                            q == (if (m__ & 1) == 1 { (q__ + p__) as nat } else { q__ });
                }""")],
    ),
    dict(
        name="factor_iter", fn="factor_iter_inner", file=FILE, title="the exact quotient, highest degree first, for every length; the empty sequence is refused",
        sig="pub fn factor_iter_inner(a_: Seq_, b_: F) -> (result: Vec<F>)",
        spec="""ensures a_@.len() >= 1, result@.len() == a_@.len() - 1,
            forall|i: int| 0 <= i < result@.len() ==> #[trigger] result@[i] == upper(a_@, a_@.len() - 1 - i, b_),
            is_quotient(a_@, b_, result@.reverse()),""",
        context=DOWN,
        pre="let mut b = b_; let ghost s = a_@;\n            proof { mul_zero(b_); neg_zero(); assert(s.take(s.len() as int) =~= s); }",
        rewrite=[
            (r"let mut a = a\.into_iter\(\)\.rev\(\)\.peekable\(\);", "let mut a = a_.down();", "the reversed peekable iterator is the list of remaining items, taken from the end"),
            (r"assert!\(a\.peek\(\)\.is_some\(\),[^;]*\);", "refuse_unless(a.peek().is_some());", "assert! panics unless the condition holds"),
            (r"(?:core::iter::)?from_fn\(move \|\| \{(.*)\}\)\s*$", closure, "from_fn yields what the closure returns until it returns None"),
        ],
        names={"tmp": r"let mut (\w+)(?:\s*:\s*F)?\s*=\s*F::ZERO"},
        loops=[dict(inv="""invariant_except_break b == fneg(b_), s == a_@, s.len() >= 1, a@.len() + out__@.len() == s.len(), a@ == s.take(a@.len() as int), a@.len() >= 1,
                forall|i: int| 0 <= i < out__@.len() ==> #[trigger] out__@[i] == upper(s, s.len() - 1 - i, b_),
                $tmp == fneg(fmul(b_, upper(s, a@.len() as int, b_))),
            ensures out__@.len() == s.len() - 1, s == a_@,
                forall|i: int| 0 <= i < out__@.len() ==> #[trigger] out__@[i] == upper(s, s.len() - 1 - i, b_),
            decreases a@.len(),""",
            start="""proof {
                let k = a@.len() - 1; let u = upper(s, k + 1, b_); let v = upper(s, k, b_);
                neg_neg(fmul(b_, u)); mul_comm(b_, u);
                neg_mul(v, b_); mul_comm(v, b_);
                assert(s.take(k + 1).drop_last() =~= s.take(k));
                assert(s.take(k + 1)[k] == s[k]);
            }""")],
        post="""proof {
            let q = r__@.reverse();
            assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == upper(a_@, j + 1, b_) by { assert(q[j] == r__@[r__@.len() - 1 - j]); }
            states_are_quotient(a_@, b_, q);
        }""",
    ),
    dict(
        name="factor", file=FILE, title="the exact quotient, for every length (over the contract of factor_iter_inner)",
        sig="pub fn factor(a: Seq_, b: F) -> (result: Vec<F>)",
        spec="ensures a@.len() >= 1, is_quotient(a@, b, result@),",
        context=DOWN + """
        #[verifier::external_body] fn factor_iter_inner(a: Seq_, b: F) -> (r: Vec<F>) ensures a@.len() >= 1, is_quotient(a@, b, r@.reverse()) { unimplemented!() }
        #[verifier::external_body] fn reverse(v: &mut Vec<F>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }""",
        rewrite=[
            (r"factor_iter_inner\(a, b\)\.collect(?:::<[^;]*>)?\(\)", "factor_iter_inner(a, b)", "collect keeps the items in order"),
            (r"(\w+)\.reverse\(\);", r"reverse(&mut \1);", "slice::reverse"),
        ],
        loops=[],
    ),
]
