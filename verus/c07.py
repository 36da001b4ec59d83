"""C07, unbounded: sparse polynomials with any number of blocks of any length, at any capacity."""
from c04 import POLY
from field import prelude
from verus import ASSERTS, ENUMERATES, MUTPAIRS, Lost, extract

FILE = "crates/ragu_circuits/src/polynomials/sparse/mod.rs"
VIEW = "crates/ragu_circuits/src/polynomials/sparse/view.rs"

ASSUME = ["R::num_coeffs() is the same positive multiple of four at every call, at most usize::MAX / 4, and R::n() a quarter of it",
          "mem::take, Vec::extend(repeat_n), slice::reverse, copy_from_slice and sub-slicing act as in the standard library"]

PRELUDE = prelude(POLY + """
pub type Block = (usize, Vec<F>);
/// R::num_coeffs(): an arbitrary positive multiple of four
pub uninterp spec fn cap() -> usize;
pub axiom fn cap_positive() ensures cap() > 0, cap() % 4 == 0, cap() <= usize::MAX / 4;
pub struct R {}
impl R {
    #[verifier::external_body] pub fn num_coeffs() -> (r: usize) ensures r == cap(), r > 0 { unimplemented!() }
    #[verifier::external_body] pub fn n() -> (r: usize) ensures r * 4 == cap(), r > 0 { unimplemented!() }
}
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
pub open spec fn end(b: Block) -> int { b.0 + b.1.len() }
pub open spec fn wf(b: Seq<Block>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).1.len() > 0 && end(b[i]) <= cap()
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> end(#[trigger] b[i]) <= (#[trigger] b[j]).0
}
/// the dense coefficient at k
pub open spec fn cf(b: Seq<Block>, k: int) -> F decreases b.len() {
    if b.len() == 0 { fzero() } else if b.last().0 <= k < end(b.last()) { b.last().1[k - b.last().0] } else { cf(b.drop_last(), k) }
}
pub open spec fn dense(b: Seq<Block>) -> Seq<F> { Seq::new(cap() as nat, |k: int| cf(b, k)) }
pub proof fn wf_less(b: Seq<Block>) requires wf(b), b.len() > 0 ensures wf(b.drop_last()) {
    assert forall|i: int, j: int| 0 <= i < j < b.drop_last().len() implies end(#[trigger] b.drop_last()[i]) <= (#[trigger] b.drop_last()[j]).0 by { assert(b[i] == b.drop_last()[i] && b[j] == b.drop_last()[j]); }
    assert forall|i: int| 0 <= i < b.drop_last().len() implies (#[trigger] b.drop_last()[i]).1.len() > 0 && end(b.drop_last()[i]) <= cap() by { assert(b[i] == b.drop_last()[i]); }
}
pub proof fn coeff_at(b: Seq<Block>, i: int, k: int)
    requires wf(b), 0 <= i < b.len(), b[i].0 <= k < end(b[i])
    ensures cf(b, k) == b[i].1[k - b[i].0]
    decreases b.len()
{
    if i < b.len() - 1 { wf_less(b); assert(end(b[i]) <= b[b.len() - 1].0); coeff_at(b.drop_last(), i, k); }
}
pub proof fn coeff_gap(b: Seq<Block>, k: int)
    requires forall|i: int| 0 <= i < b.len() ==> !((#[trigger] b[i]).0 <= k < end(b[i]))
    ensures cf(b, k) == fzero()
    decreases b.len()
{
    if b.len() > 0 {
        assert(b[b.len() - 1] == b.last());
        assert forall|i: int| 0 <= i < b.drop_last().len() implies !((#[trigger] b.drop_last()[i]).0 <= k < end(b.drop_last()[i])) by { assert(b.drop_last()[i] == b[i]); }
        coeff_gap(b.drop_last(), k);
    }
}
/// blocks are non-empty and disjoint, so there are at most cap() of them
pub proof fn few(b: Seq<Block>, n: int) requires wf(b), 0 <= n <= b.len() ensures n <= cap(), n > 0 ==> n <= end(b[n - 1]) decreases n {
    if n > 0 { few(b, n - 1); if n > 1 { assert(end(b[n - 2]) <= b[n - 1].0); } assert(end(b[n - 1]) <= cap()); }
}
/// between block i - 1 and block i (or the ends) every coefficient is zero
pub proof fn gap_at(b: Seq<Block>, i: int, k: int)
    requires wf(b), 0 <= i <= b.len(), i > 0 ==> end(b[i - 1]) <= k, i < b.len() ==> k < b[i].0
    ensures cf(b, k) == fzero()
{
    assert forall|j: int| 0 <= j < b.len() implies !((#[trigger] b[j]).0 <= k < end(b[j])) by {
        if j < i - 1 { assert(end(b[j]) <= b[i - 1].0); } else if j > i { assert(end(b[i]) <= b[j].0); }
    }
    coeff_gap(b, k);
}
pub open spec fn below(b: Seq<Block>, e: int) -> bool { forall|i: int| 0 <= i < b.len() ==> end(#[trigger] b[i]) <= e }
pub proof fn coeff_above(b: Seq<Block>, e: int, k: int) requires below(b, e), k >= e ensures cf(b, k) == fzero() { coeff_gap(b, k); }
/// appending a block
pub proof fn push_block(b: Seq<Block>, x: Block)
    requires wf(b), below(b, x.0 as int), x.1.len() > 0, end(x) <= cap()
    ensures wf(b.push(x)), below(b.push(x), end(x)),
        forall|k: int| #[trigger] cf(b.push(x), k) == if x.0 <= k < end(x) { x.1[k - x.0] } else { cf(b, k) }
{
    let c = b.push(x);
    assert(c.drop_last() =~= b);
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies end(#[trigger] c[i]) <= (#[trigger] c[j]).0 by { assert(c[i] == b[i]); if j < b.len() { assert(c[j] == b[j]); } }
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).1.len() > 0 && end(c[i]) <= cap() by { if i < b.len() { assert(c[i] == b[i]); } }
    assert forall|i: int| 0 <= i < c.len() implies end(#[trigger] c[i]) <= end(x) by { if i < b.len() { assert(c[i] == b[i]); } }
}
impl F {
    #[verifier::external_body] pub fn pow_vartime(&self, e: [u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as nat) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero_(&self) -> (r: bool) ensures r == (*self == fzero()) { unimplemented!() }
}
#[verifier::external_body] fn take_block(v: &mut Vec<F>) -> (r: Vec<F>) ensures r@ == old(v)@, final(v)@.len() == 0 { core::mem::take(v) }
#[verifier::external_body] fn take_blocks(v: &mut Vec<Block>) -> (r: Vec<Block>) ensures r@ == old(v)@, final(v)@.len() == 0 { core::mem::take(v) }
#[verifier::external_body] fn zeros(n: usize) -> (r: Vec<F>) ensures r.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r[k] == fzero() { unimplemented!() }
#[verifier::external_body] fn push_zeros(v: &mut Vec<F>, n: usize)
    ensures final(v).len() == old(v).len() + n, forall|k: int| 0 <= k < final(v).len() ==> #[trigger] final(v)[k] == if k < old(v).len() { old(v)[k] } else { fzero() } { unimplemented!() }
#[verifier::external_body] fn copy_into(v: &mut Vec<F>, a: usize, b: usize, s: &Vec<F>)
    requires a <= b <= old(v).len(), b - a == s.len(),
    ensures final(v).len() == old(v).len(), forall|k: int| 0 <= k < final(v).len() ==> #[trigger] final(v)[k] == if a <= k < b { s[k - a] } else { old(v)[k] } { v[a..b].copy_from_slice(s) }
#[verifier::external_body] fn sub<'a>(v: &'a Vec<F>, a: usize, b: usize) -> (r: &'a [F])
    requires a <= b <= v.len() ensures r@ == v@.subrange(a as int, b as int) { &v[a..b] }
#[verifier::external_body] fn sub_in<'a>(v: &'a Vec<F>, a: usize, b: usize) -> (r: &'a [F])
    requires a <= b + 1, b + 1 <= v.len() ensures r@ == v@.subrange(a as int, b + 1) { &v[a..=b] }
fn slice_in(n: usize, a: usize, b: usize) -> (r: usize) requires a <= b <= n ensures r == b - a { b - a }
pub struct Polynomial { pub blocks: Vec<Block> }
impl Polynomial {
    /// contract of assert_invariants, proved on its own below
    #[verifier::external_body] fn assert_invariants(&self)
        requires forall|i: int| 0 <= i < self.blocks.len() ==> end(#[trigger] self.blocks[i]) <= usize::MAX
        ensures wf(self.blocks@) { unimplemented!() }
}
pub struct CoeffIter<'a> { pub blocks: &'a [Block], pub front: usize, pub back: usize, pub front_block: usize, pub back_block: usize }
impl<'a> CoeffIter<'a> {
    pub open spec fn inv(&self) -> bool {
        let b = self.blocks@;
        &&& wf(b) && self.front <= self.back <= cap()
        &&& self.front_block <= b.len() && forall|i: int| 0 <= i < self.front_block ==> end(#[trigger] b[i]) <= self.front
        &&& self.back_block <= b.len() && forall|i: int| self.back_block <= i < b.len() ==> (#[trigger] b[i]).0 >= self.back
    }
}
/// dilation and the like: every stored coefficient is replaced in place
pub open spec fn same_shape(a: Seq<Block>, b: Seq<Block>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 && a[i].1.len() == b[i].1.len()
}
pub proof fn shape_wf(a: Seq<Block>, b: Seq<Block>) requires wf(a), same_shape(a, b) ensures wf(b) {
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).1.len() > 0 && end(b[i]) <= cap() by { assert(a[i].0 == b[i].0); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies end(#[trigger] b[i]) <= (#[trigger] b[j]).0 by { assert(a[i].0 == b[i].0 && a[j].0 == b[j].0); assert(end(a[i]) <= a[j].0); }
}
pub proof fn mapped(a: Seq<Block>, b: Seq<Block>, g: spec_fn(int, F) -> F)
    requires wf(a), same_shape(a, b), forall|k: int| #[trigger] g(k, fzero()) == fzero(),
        forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a[i].1.len() ==> #[trigger] b[i].1[j] == g(a[i].0 + j, a[i].1[j])
    ensures wf(b), forall|k: int| #[trigger] cf(b, k) == g(k, cf(a, k))
{
    shape_wf(a, b);
    assert forall|k: int| #[trigger] cf(b, k) == g(k, cf(a, k)) by {
        if exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 <= k < end(a[i]) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 <= k < end(a[i]);
            assert(a[i].0 == b[i].0);
            coeff_at(a, i, k); coeff_at(b, i, k);
            assert(b[i].1[k - a[i].0] == g(a[i].0 + (k - a[i].0), a[i].1[k - a[i].0]));
        } else {
            assert forall|i: int| 0 <= i < b.len() implies !((#[trigger] b[i]).0 <= k < end(b[i])) by { assert(a[i].0 == b[i].0); }
            coeff_gap(a, k); coeff_gap(b, k);
        }
    }
}
/// Horner states across a gap
pub proof fn upper_gap(b: Seq<Block>, k: int, n: nat, z: F)
    requires 0 <= k, k + n <= cap(), forall|j: int| k <= j < k + n ==> #[trigger] cf(b, j) == fzero()
    ensures upper(dense(b), k, z) == fmul(upper(dense(b), k + n, z), fpow(z, n))
    decreases n
{
    let d = dense(b);
    if n == 0 { mul_one(upper(d, k, z)); } else {
        upper_gap(b, k + 1, (n - 1) as nat, z);
        assert(cf(b, k) == fzero()); assert(d[k] == fzero());
        let u = fmul(upper(d, k + 1, z), z);
        add_comm(fzero(), u); add_zero(u);
        mul_assoc(upper(d, k + n, z), fpow(z, (n - 1) as nat), z);
    }
}
pub open spec fn rd(a: Seq<Block>, b: Seq<Block>, k: int) -> F decreases k {
    if k <= 0 { fzero() } else { fadd(rd(a, b, k - 1), fmul(cf(a, k - 1), cf(b, cap() - k))) }
}
pub proof fn rd_skip(a: Seq<Block>, b: Seq<Block>, p: int, q: int)
    requires 0 <= p <= q, forall|k: int| p <= k < q ==> #[trigger] cf(a, k) == fzero() || cf(b, cap() - 1 - k) == fzero()
    ensures rd(a, b, q) == rd(a, b, p)
    decreases q - p
{
    if p < q {
        rd_skip(a, b, p, q - 1);
        let (x, y) = (cf(a, q - 1), cf(b, cap() - q));
        assert(cf(a, q - 1) == fzero() || cf(b, cap() - 1 - (q - 1)) == fzero());
        mul_zero(x); mul_comm(x, y); mul_zero(y); add_zero(rd(a, b, p));
    }
}
""")


def whilelet(body):
    import re
    return re.sub(r"while let \(Some\((\w+)\), Some\((\w+)\)\) = \((\w+\.peek\(\)), (\w+\.peek\(\))\) \{",
                  r"loop { let (\1, \2) = match (\3, \4) { (Some(x__), Some(y__)) => (x__, y__), _ => { break; } };", body)


def zipped(body):
    """`for (x, y) in s.iter().zip(t.iter().rev())` becomes a loop over one index."""
    import re

    def one(h):
        j = f"{h[4]}.len() - 1 - z__" if h[5] else "z__"
        return (f"let n__ = if {h[3]}.len() <= {h[4]}.len() {{ {h[3]}.len() }} else {{ {h[4]}.len() }}; "
                f"for z__ in 0..n__ {{ let {h[1]} = &{h[3]}[z__]; let {h[2]} = &{h[4]}[{j}];")

    return re.sub(r"for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)(\.rev\(\))?\) \{", one, body)


UPDOWN = """
#[verifier::external_body] pub struct Up<'a> { x: &'a Vec<Block> }
impl<'a> View for Up<'a> { type V = Seq<Block>; uninterp spec fn view(&self) -> Seq<Block>; }
#[verifier::external_body] fn up<'a>(v: &'a Vec<Block>) -> (r: Up<'a>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn down<'a>(v: &'a Vec<Block>) -> (r: Up<'a>) ensures r@ == v@.reverse() { unimplemented!() }
impl<'a> Up<'a> {
    #[verifier::external_body] fn peek(&self) -> (r: Option<&'a Block>)
        ensures r.is_some() == (self@.len() > 0), r.is_some() ==> *r.unwrap() == self@[0] { unimplemented!() }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<&'a Block>)
        ensures r.is_some() == (old(self)@.len() > 0),
            r.is_some() ==> *r.unwrap() == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            r.is_none() ==> final(self)@ == old(self)@ { unimplemented!() }
}
"""


def merge_loops(body):
    """Loops of combine_assign over sub-slices and zipped mutable slices become loops over an index."""
    import re
    body = re.sub(r"for (\w+) in &mut (\w+)\[([^\]]*?)\.\.([^\]]*?)\] \{", r"for y__ in \3..\4 { let \1 = &mut \2[y__];", body)
    body = re.sub(r"for \((\w+), (\w+)\) in &(\w+)\[([^\]]*?)\.\.([^\]]*?)\] \{", r"for y__ in \4..\5 { let \1 = \3[y__].0; let \2 = &\3[y__].1;", body)
    body = re.sub(r"for \((\w+), (\w+)\) in (\w+)\[([^\]]*?)\.\.([^\]]*?)\]\.iter_mut\(\)\.zip\((\w+)\) \{",
                  r"let lo__ = \4; let n__ = min(slice_in(\3.len(), lo__, \5), \6.len()); for z__ in 0..n__ { let \1 = &mut \3[lo__ + z__]; let \2 = &\6[z__];", body)
    body = re.sub(r"for \((\w+), (\w+)\) in (\w+)\.iter_mut\(\)\.zip\((\w+)\) \{",
                  r"let n__ = min(\3.len(), \4.len()); for z__ in 0..n__ { let \1 = &mut \3[z__]; let \2 = &\4[z__];", body)
    return re.sub(r"(\w+)\[([^\]]*?)\.\.([^\]]*?)\]\.copy_from_slice\((\w+)\)", r"copy_into(&mut \1, \2, \3, \4)", body)


def closure_of(body):
    """The closure handed to combine_assign, as a function body."""
    import re
    h = re.search(r"self\.combine_assign\(other, \|(\w+), (\w+)\| ([^;]*)\)\s*;?\s*$", body)
    if not h:
        raise Lost("combine_assign is not called with a closure")
    return f"let {h[1]} = x__; let {h[2]} = y__; {h[3]};"


def folded(body):
    """Iterator::fold with a closure is a loop."""
    import re
    h = re.search(r"(\w+)\.into_iter\(\)\.fold\((.*?), \|mut (\w+), (\w+)\| \{(.*?)(\w+)\s*\}\)\s*$", body, re.S)
    if not h or h[3] != h[6]:
        raise Lost("fold is not the expected closure")
    return f"let mut {h[3]} = {h[2]}; for z__ in 0..{h[1]}.len() {{ let {h[4]} = &{h[1]}[z__]; {h[5]} }} {h[3]}"


TRACE = """
/// the dense meaning of the four wire buffers from the trace's perspective
pub open spec fn laid_out(a: Seq<F>, b: Seq<F>, c: Seq<F>, d: Seq<F>, n: int, k: int) -> F {
    if 0 <= k < c.len() { c[k] }
    else if 2 * n - b.len() <= k < 2 * n { b[2 * n - 1 - k] }
    else if 2 * n <= k < 2 * n + a.len() { a[k - 2 * n] }
    else if 4 * n - d.len() <= k < 4 * n { d[4 * n - 1 - k] }
    else { fzero() }
}
#[verifier::external_body] fn reverse(v: &mut Vec<F>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
proof fn push_any(b: Seq<Block>, e: int)
    requires wf(b), below(b, e), 0 <= e
    ensures forall|x: Block| x.0 >= e && x.1.len() > 0 && end(x) <= cap() ==> wf(#[trigger] b.push(x)) && below(b.push(x), end(x))
        && forall|k: int| #[trigger] cf(b.push(x), k) == (if x.0 <= k < end(x) { x.1[k - x.0] } else { cf(b, k) })
{
    assert forall|x: Block| x.0 >= e && x.1.len() > 0 && end(x) <= cap() implies wf(#[trigger] b.push(x)) && below(b.push(x), end(x))
        && forall|k: int| #[trigger] cf(b.push(x), k) == (if x.0 <= k < end(x) { x.1[k - x.0] } else { cf(b, k) }) by { push_block(b, x); }
}
"""
FITS = "a.len() <= n, b.len() <= n, c.len() <= n, d.len() <= n, 4 * n == cap()"

EXTEND = """
#[verifier::external_body] fn extend_runs(out: &mut Vec<Block>, base: usize, data: Vec<F>)
    requires wf(old(out)@), below(old(out)@, base as int), base + data.len() <= cap()
    ensures wf(final(out)@), below(final(out)@, base + data.len()),
        forall|k: int| #[trigger] cf(final(out)@, k) == if base <= k < base + data.len() { data[k - base] } else { cf(old(out)@, k) } { unimplemented!() }
"""

MERGE = EXTEND + """
/// the operation on one pair of coefficients (the closure): adding zero to the right leaves the left side
pub uninterp spec fn opf(a: F, b: F) -> F;
pub axiom fn opf_zero(a: F) ensures opf(a, fzero()) == a;
#[verifier::external_body] fn op(a: &mut F, b: &F) ensures *final(a) == opf(*old(a), *b) { unimplemented!() }
fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub open spec fn merged(l: Seq<Block>, r: Seq<Block>, k: int) -> F { opf(cf(l, k), cf(r, k)) }
"""


def inline_apply(body):
    """self.apply_all(|x| e) becomes the body of apply_all with e in place of op(elem)."""
    import re
    h = re.search(r"self\.apply_all\(\|(\w+)\| ([^;]*)\)", body)
    if not h:
        raise Lost("apply_all is not called with a closure")
    _, inner, _ = extract(FILE, "apply_all")
    inner, n = re.subn(r"op\((\w+)\);", lambda m: f"{{ let {h[1]} = {m[1]}; {h[2]}; }}", inner)
    if n != 1:
        raise Lost("apply_all has changed")
    return body[:h.start()] + inner + body[h.end():]


def apply_loops(g):
    """The two nested loops of apply_all with g(old) as the new value of every element."""
    return [
        dict(inv=f"""invariant it0.seq().len() == b0.len(),
                forall|k: int| 0 <= k < b0.len() ==> *(#[trigger] it0.seq()[k]) == b0[k],
                forall|k: int| 0 <= k < it0.index() ==> (*final(#[trigger] it0.seq()[k])).0 == b0[k].0 && (*final(it0.seq()[k])).1.len() == b0[k].1.len(),
                forall|k: int, j: int| 0 <= k < it0.index() && 0 <= j < b0[k].1.len() ==> (#[trigger] (*final(it0.seq()[k])).1[j]) == {g('b0[k].1[j]')},""",
             start="let ghost d0 = b0[it0.index() as int].1@;"),
        dict(inv=f"""invariant it1.seq().len() == d0.len(),
                forall|k: int| 0 <= k < d0.len() ==> *(#[trigger] it1.seq()[k]) == d0[k],
                forall|k: int| 0 <= k < it1.index() ==> *final(#[trigger] it1.seq()[k]) == {g('d0[k]')},"""),
    ]


POLYSIG = "impl Polynomial {{ pub fn {}"

FUNCTIONS = [
    dict(
        name="assert_invariants", file=FILE, title="refuses every block list that is not sorted, non-overlapping, non-empty and within the capacity",
        sig="pub fn assert_invariants_(this: &Polynomial)",
        spec="""requires forall|i: int| 0 <= i < this.blocks.len() ==> end(#[trigger] this.blocks[i]) <= usize::MAX
            ensures wf(this.blocks@),""",
        transform=[ASSERTS, ENUMERATES],
        rewrite=[(r"\bself\b", "this", "method receiver")],
        names={"prev": r"let mut (\w+)(?:\s*: usize)? = 0;"},
        loops=[dict(inv="""invariant it0.seq().len() == this.blocks.len(), c0__ == it0.index(),
                forall|i: int| 0 <= i < this.blocks.len() ==> *(#[trigger] it0.seq()[i]) == this.blocks[i],
                forall|i: int| 0 <= i < this.blocks.len() ==> end(#[trigger] this.blocks[i]) <= usize::MAX,
                forall|i: int| 0 <= i < it0.index() ==> (#[trigger] this.blocks[i]).1.len() > 0 && end(this.blocks[i]) <= cap() && end(this.blocks[i]) <= $prev,
                forall|i: int, j: int| 0 <= i < j < it0.index() ==> end(#[trigger] this.blocks[i]) <= (#[trigger] this.blocks[j]).0,""",
                    start="assert(*it0.seq()[it0.index() as int] == this.blocks[it0.index() as int]); assert(end(this.blocks[it0.index() as int]) <= usize::MAX);")],
    ),
    dict(
        name="CoeffIter::next", fn="next", within=r"impl<F: Field> Iterator for CoeffIter", file=FILE, title="the front coefficient of the dense vector, from every state",
        sig="impl<'a> CoeffIter<'a> { pub fn next(&mut self) -> (r: Option<F>)", suffix="}",
        spec="""requires old(self).inv()
            ensures final(self).inv(), final(self).blocks == old(self).blocks, final(self).back == old(self).back,
                r.is_none() == (old(self).front == old(self).back), r.is_none() ==> final(self).front == old(self).front,
                r.is_some() ==> r.unwrap() == cf(old(self).blocks@, old(self).front as int) && final(self).front == old(self).front + 1,""",
        pre="let ghost b0 = self.blocks@; let ghost f0 = self.front; let ghost k0 = self.back;",
        names={"val": r"let (\w+) = if"},
        loops=[dict(inv="""invariant_except_break self.inv(), self.blocks@ == b0, self.front == f0, self.back == k0, f0 < k0,
            ensures self.inv(), self.blocks@ == b0, self.front == f0, self.back == k0, f0 < k0, self.front_block < b0.len() ==> end(b0[self.front_block as int]) > f0,
            decreases b0.len() - self.front_block,""",
                    start="assert(end(b0[self.front_block as int]) <= cap());",
                    after="""proof {
                        let i = self.front_block as int;
                        if i < b0.len() && b0[i].0 <= f0 { coeff_at(b0, i, f0 as int); } else { gap_at(b0, i, f0 as int); }
                    }""")],
    ),
    dict(
        name="CoeffIter::next_back", fn="next_back", file=FILE, title="the back coefficient of the dense vector, from every state",
        sig="impl<'a> CoeffIter<'a> { pub fn next_back(&mut self) -> (r: Option<F>)", suffix="}",
        spec="""requires old(self).inv()
            ensures final(self).inv(), final(self).blocks == old(self).blocks, final(self).front == old(self).front,
                r.is_none() == (old(self).front == old(self).back), r.is_none() ==> final(self).back == old(self).back,
                r.is_some() ==> r.unwrap() == cf(old(self).blocks@, old(self).back - 1) && final(self).back == old(self).back - 1,""",
        pre="let ghost b0 = self.blocks@; let ghost f0 = self.front; let ghost k0 = self.back;",
        loops=[dict(inv="""invariant_except_break self.inv(), self.blocks@ == b0, self.front == f0, self.back == k0 - 1, f0 < k0, forall|i: int| self.back_block <= i < b0.len() ==> (#[trigger] b0[i]).0 >= k0,
            ensures self.inv(), self.blocks@ == b0, self.front == f0, self.back == k0 - 1, f0 < k0, forall|i: int| self.back_block <= i < b0.len() ==> (#[trigger] b0[i]).0 >= k0, self.back_block > 0 ==> b0[self.back_block - 1].0 <= k0 - 1,
            decreases self.back_block,""",
                    start="assert(end(b0[self.back_block - 1]) <= cap());",
                    after="""proof {
                        let i = self.back_block as int;
                        if i > 0 && k0 - 1 < end(b0[i - 1]) { coeff_at(b0, i - 1, k0 - 1); } else { gap_at(b0, i, k0 - 1); }
                    }""")],
    ),
    dict(
        name="extend_runs", file=FILE, title="appends exactly the coefficients, for every vector and every pattern of zeros",
        sig="pub fn extend_runs(out: &mut Vec<Block>, base: usize, data: Vec<F>)",
        spec="""requires wf(old(out)@), below(old(out)@, base as int), base + data.len() <= cap()
            ensures wf(final(out)@), below(final(out)@, base + data.len()),
                forall|k: int| #[trigger] cf(final(out)@, k) == if base <= k < base + data.len() { data[k - base] } else { cf(old(out)@, k) },""",
        pre="let ghost d = data@; let ghost o0 = out@;\n proof { assert forall|k: int| k >= base implies #[trigger] cf(o0, k) == fzero() by { coeff_above(o0, base as int, k); } }",
        transform=[ENUMERATES],
        rewrite=[
            (r"bool::from\((\w+)\.is_zero\(\)\)", r"\1.is_zero_()", "the truth value of is_zero"),
            (r"(\w+)\.extend\((?:core::iter::)?repeat_n\(F::ZERO, (\w+)\)\)", r"push_zeros(&mut \1, \2)", "extend with repeat_n appends that many zeros"),
            (r"core::mem::take\(&mut (\w+)\)", r"take_block(&mut \1)", "mem::take of a vector leaves the empty one"),
            (r"const GAP", "const GAP", "") if False else (r"GAP_TOLERANCE", "gap_tolerance()", "the constant is read as an arbitrary number"),
        ],
        context="#[verifier::external_body] fn gap_tolerance() -> usize { unimplemented!() }",
        names={"rs": r"let mut (\w+): Option<usize> = None", "run": r"let mut (\w+)(?:\s*:\s*Vec<F>)? = Vec::new\(\)", "zc": r"let mut (\w+)(?:\s*: usize)? = 0(?:usize)?;"},
        loops=[dict(inv="""invariant it0.seq() == d, c0__ == it0.index(), base + d.len() <= cap(), c0__ <= d.len(),
                forall|k: int| k >= base ==> #[trigger] cf(o0, k) == fzero(),
                wf(out@), below(out@, base + c0__),
                $rs.is_none() ==> $run@.len() == 0 && $zc == 0
                    && forall|k: int| #[trigger] cf(out@, k) == if base <= k < base + c0__ { d[k - base] } else { cf(o0, k) },
                $rs.is_some() ==> base <= $rs.unwrap() && $run@.len() > 0 && $rs.unwrap() + $run@.len() + $zc == base + c0__ && below(out@, $rs.unwrap() as int)
                    && (forall|k: int| #[trigger] cf(out@, k) == if base <= k < $rs.unwrap() { d[k - base] } else { cf(o0, k) })
                    && (forall|j: int| 0 <= j < $run@.len() ==> #[trigger] $run@[j] == d[$rs.unwrap() - base + j])
                    && (forall|j: int| c0__ - $zc <= j < c0__ ==> #[trigger] d[j] == fzero()),""",
                    start="""let ghost n__ = c0__; let ghost rs__ = $rs; let ghost run__ = $run@; let ghost zc__ = $zc; let ghost o__ = out@;
                    proof { if rs__.is_some() { let s = rs__.unwrap(); assert forall|x: Block| x.0 == s && x.1@ == run__ implies
                        wf(#[trigger] o__.push(x)) && below(o__.push(x), end(x)) && forall|k: int| #[trigger] cf(o__.push(x), k) == (if x.0 <= k < end(x) { x.1[k - x.0] } else { cf(o__, k) }) by { push_block(o__, x); } } }""",
                    after="""proof { if $rs.is_some() { let s = $rs.unwrap(); let o__ = out@; assert forall|x: Block| x.0 == s && x.1@ == $run@ implies
                        wf(#[trigger] o__.push(x)) && below(o__.push(x), end(x)) && forall|k: int| #[trigger] cf(o__.push(x), k) == (if x.0 <= k < end(x) { x.1[k - x.0] } else { cf(o__, k) }) by { push_block(o__, x); } } }""")],
    ),
    dict(
        name="eval", file=FILE, title="the value of the dense polynomial, for every block layout",
        sig="pub fn eval(this: &Polynomial, z: F) -> (result: F)",
        spec="requires wf(this.blocks@) ensures result == value(dense(this.blocks@), z),",
        rewrite=[(r"\bself\b", "this", "method receiver")],
        pre="let ghost b = this.blocks@; let ghost d = dense(b); proof { assert(upper(d, cap() as int, z) == fzero()); }",
        names={"result": r"let mut (\w+) = F::ZERO", "prev": r"let mut (\w+) = R::num_coeffs\(\)"},
        loops=[dict(inv="""invariant b == this.blocks@, wf(b), d == dense(b), it0.seq().len() == b.len(),
                forall|k: int| 0 <= k < b.len() ==> *(#[trigger] it0.seq()[k]) == b[b.len() - 1 - k],
                $prev <= cap(), it0.index() > 0 ==> $prev == b[b.len() - it0.index()].0, it0.index() == 0 ==> $prev == cap(),
                $result == upper(d, $prev as int, z),""",
                    start="""let ghost i__ = b.len() - 1 - it0.index(); let ghost p__ = $prev as int;
                    proof {
                        assert(*it0.seq()[it0.index() as int] == b[i__]);
                        assert(end(b[i__]) <= p__) by { if it0.index() > 0 { assert(end(b[i__]) <= b[i__ + 1].0); } };
                        assert forall|j: int| end(b[i__]) <= j < p__ implies #[trigger] cf(b, j) == fzero() by { gap_at(b, i__ + 1, j); }
                        upper_gap(b, end(b[i__]), (p__ - end(b[i__])) as nat, z);
                        mul_one(upper(d, p__, z));
                    }""",
                    after="""proof {
            assert forall|j: int| 0 <= j < $prev implies #[trigger] cf(b, j) == fzero() by { gap_at(b, 0, j); }
            upper_gap(b, 0, $prev as nat, z); mul_one(upper(d, $prev as int, z));
        }"""),
               dict(inv="""invariant b == this.blocks@, wf(b), d == dense(b), 0 <= i__ < b.len(), it1.seq().len() == b[i__].1.len(),
                forall|k: int| 0 <= k < b[i__].1.len() ==> *(#[trigger] it1.seq()[k]) == b[i__].1[b[i__].1.len() - 1 - k],
                $result == upper(d, end(b[i__]) - it1.index(), z), $prev <= cap(),""",
                    start="""proof {
                        let k = end(b[i__]) - 1 - it1.index();
                        coeff_at(b, i__, k);
                        assert(*it1.seq()[it1.index() as int] == b[i__].1[b[i__].1.len() - 1 - it1.index()]);
                        assert(d[k] == b[i__].1[k - b[i__].0]);
                        add_comm(d[k], fmul(upper(d, k + 1, z), z));
                    }""")],
        post="proof { horner_is_value(d, z); }",
    ),
    dict(
        name="dilate", file=FILE, title="the coefficient at k is multiplied by z^k, for every block layout",
        sig="pub fn dilate(this: &mut Polynomial, z: F)",
        spec="requires wf(old(this).blocks@) ensures wf(final(this).blocks@), forall|k: int| 0 <= k < cap() ==> #[trigger] cf(final(this).blocks@, k) == fmul(cf(old(this).blocks@, k), fpow(z, k as nat)),",
        transform=[MUTPAIRS],
        rewrite=[(r"\bself\b", "this", "method receiver")],
        pre="let ghost b0 = this.blocks@;",
        names={"power": r"let mut (\w+) = F::ONE", "prev": r"let mut (\w+)(?:\s*: usize)? = 0;"},
        loops=[dict(inv="""invariant it0.seq().len() == b0.len(), wf(b0),
                forall|k: int| 0 <= k < b0.len() ==> *(#[trigger] it0.seq()[k]) == b0[k],
                $power == fpow(z, $prev as nat), it0.index() == 0 ==> $prev == 0, it0.index() > 0 ==> $prev == end(b0[it0.index() - 1]),
                forall|k: int| 0 <= k < it0.index() ==> (*final(#[trigger] it0.seq()[k])).0 == b0[k].0 && (*final(it0.seq()[k])).1.len() == b0[k].1.len(),
                forall|k: int, j: int| 0 <= k < it0.index() && 0 <= j < b0[k].1.len() ==> (#[trigger] (*final(it0.seq()[k])).1[j]) == fmul(b0[k].1[j], fpow(z, (b0[k].0 + j) as nat)),""",
                    start="""let ghost i__ = it0.index() as int; let ghost d0 = b0[i__].1@; let ghost s0 = b0[i__].0;
                    proof {
                        assert(*it0.seq()[i__] == b0[i__]);
                        assert(end(b0[i__]) <= cap());
                        assert($prev <= s0) by { if i__ > 0 { assert(end(b0[i__ - 1]) <= b0[i__].0); } };
                        pow_add(z, $prev as nat, (s0 - $prev) as nat);
                        mul_one($power);
                    }"""),
               dict(inv="""invariant it1.seq().len() == d0.len(), s0 + d0.len() <= cap(),
                forall|k: int| 0 <= k < d0.len() ==> *(#[trigger] it1.seq()[k]) == d0[k],
                $power == fpow(z, (s0 + it1.index()) as nat),
                forall|k: int| 0 <= k < it1.index() ==> *final(#[trigger] it1.seq()[k]) == fmul(d0[k], fpow(z, (s0 + k) as nat)),""",
                    start="assert(*it1.seq()[it1.index() as int] == d0[it1.index() as int]);")],
        post="""proof {
            let g = |k: int, c: F| if k < 0 { fzero() } else { fmul(c, fpow(z, k as nat)) };
            assert forall|k: int| #[trigger] g(k, fzero()) == fzero() by { mul_comm(fzero(), fpow(z, k as nat)); mul_zero(fpow(z, k as nat)); }
            mapped(b0, this.blocks@, g);
        }""",
    ),
    dict(
        name="negate", file=FILE, title="every coefficient is negated, for every block layout",
        sig="pub fn negate(this: &mut Polynomial)",
        spec="requires wf(old(this).blocks@) ensures wf(final(this).blocks@), forall|k: int| #[trigger] cf(final(this).blocks@, k) == fneg(cf(old(this).blocks@, k)),",
        transform=[(inline_apply, "apply_all is inlined with its closure"), MUTPAIRS],
        rewrite=[(r"\bself\b", "this", "method receiver")],
        pre="let ghost b0 = this.blocks@;",
        loops=apply_loops(lambda x: f"fneg({x})"),
        post="""proof { let g = |k: int, c: F| fneg(c); neg_zero(); mapped(b0, this.blocks@, g); assert forall|k: int| #[trigger] cf(this.blocks@, k) == fneg(cf(b0, k)) by { assert(g(k, cf(b0, k)) == fneg(cf(b0, k))); } }""",
    ),
    dict(
        name="scale", file=FILE, title="every coefficient is multiplied, for every block layout and factor including zero",
        sig="pub fn scale(this: &mut Polynomial, by: F)",
        spec="requires wf(old(this).blocks@) ensures wf(final(this).blocks@), forall|k: int| #[trigger] cf(final(this).blocks@, k) == fmul(cf(old(this).blocks@, k), by),",
        transform=[(inline_apply, "apply_all is inlined with its closure"), MUTPAIRS],
        rewrite=[(r"\bself\b", "this", "method receiver"), (r"bool::from\((\w+)\.is_zero\(\)\)", r"\1.is_zero_()", "the truth value of is_zero")],
        pre="let ghost b0 = this.blocks@;",
        loops=apply_loops(lambda x: f"fmul({x}, by)"),
        post="""proof { let g = |k: int, c: F| fmul(c, by); mul_comm(fzero(), by); mul_zero(by);
            if by == fzero() { assert forall|k: int| #[trigger] cf(this.blocks@, k) == fmul(cf(b0, k), by) by { mul_zero(cf(b0, k)); } }
            else { mapped(b0, this.blocks@, g); assert forall|k: int| #[trigger] cf(this.blocks@, k) == fmul(cf(b0, k), by) by { assert(g(k, cf(b0, k)) == fmul(cf(b0, k), by)); } } }""",
    ),
    dict(
        name="revdot", file=FILE, title="the inner product with the reversed dense vector, for every pair of block layouts",
        sig="pub fn revdot(this: &Polynomial, other: &Polynomial) -> (result: F)",
        spec="requires wf(this.blocks@), wf(other.blocks@) ensures result == rd(this.blocks@, other.blocks@, cap() as int),",
        context=UPDOWN,
        transform=[(whilelet, "`while let` over two peeked iterators is a loop that leaves at the first missing one"), (zipped, "the zipped slice iterators become one index")],
        rewrite=[(r"\bself\b", "this", "method receiver"),
                 (r"(\w+)\.blocks\.iter\(\)\.peekable\(\)", r"up(&\1.blocks)", "the peekable iterator is the list of remaining blocks"),
                 (r"(\w+)\.blocks\.iter\(\)\.rev\(\)\.peekable\(\)", r"down(&\1.blocks)", "the reversed peekable iterator is the list of remaining blocks in reverse"),
                 (r"&(\w+)\[([^\];]*?)\.\.=([^\];]*?)\];", r"sub_in(\1, \2, \3);", "an inclusive sub-slice"),
                 (r"&(\w+)\[([^\];=]*?)\.\.([^\];=]*?)\];", r"sub(\1, \2, \3);", "a sub-slice")],
        pre="let ghost a = this.blocks@; let ghost b = other.blocks@; let ghost p: int = 0; let ghost ai: int = 0; let ghost bi: int = b.len() as int; proof { cap_positive(); assert(a.subrange(0, a.len() as int) =~= a); assert(b.subrange(0, b.len() as int) =~= b); }",
        names={"result": r"let mut (\w+) = F::ZERO", "ait": r"let mut (\w+) = self", "bit": r"let mut (\w+) = other", "md": r"let (\w+) = R::num_coeffs\(\) - 1",
               "lo": r"let (\w+) = a_start\.max", "hi": r"let (\w+) = a_end\.min", "rh": r"let (\w+) = max_deg \+ 1 - b_start;"},
        loops=[dict(inv="""invariant_except_break wf(a), wf(b), a == this.blocks@, b == other.blocks@, $md == cap() - 1, cap() > 0,
                0 <= ai <= a.len(), 0 <= bi <= b.len(), $ait@ == a.subrange(ai, a.len() as int), $bit@ == b.subrange(0, bi).reverse(),
                0 <= p <= cap(), $result == rd(a, b, p),
                forall|i: int| 0 <= i < ai ==> end(#[trigger] a[i]) <= p,
                forall|i: int| bi <= i < b.len() ==> cap() - (#[trigger] b[i]).0 <= p,
                ai < a.len() ==> end(a[ai]) >= p, bi > 0 ==> cap() - b[bi - 1].0 >= p,
                ai < a.len() && bi > 0 ==> a[ai].0 >= p || cap() - end(b[bi - 1]) >= p,
            ensures $result == rd(a, b, cap() as int),
            decreases a.len() - ai + bi,""",
                    start="""let ghost p__ = p; let ghost ai__ = ai; let ghost bi__ = bi;
                    proof { if ai == a.len() || bi == 0 {
                        assert forall|k: int| p <= k < cap() implies #[trigger] cf(a, k) == fzero() || cf(b, cap() - 1 - k) == fzero() by {
                            if ai == a.len() { assert forall|i: int| 0 <= i < a.len() implies !((#[trigger] a[i]).0 <= k < end(a[i])) by { assert(end(a[i]) <= p); } coeff_gap(a, k); }
                            else { assert forall|i: int| 0 <= i < b.len() implies !((#[trigger] b[i]).0 <= cap() - 1 - k < end(b[i])) by { assert(cap() - b[i].0 <= p); } coeff_gap(b, cap() - 1 - k); }
                        }
                        rd_skip(a, b, p, cap() as int);
                    } else {
                        assert($ait@[0] == a[ai]); assert($bit@[0] == b[bi - 1]);
                        let (x, y) = (a[ai], b[bi - 1]);
                        let (lo, hi) = (cap() - end(y), cap() - y.0);
                        let q = if end(x) <= hi { end(x) } else { hi };
                        let m = if x.0 >= lo { x.0 as int } else { lo };
                        let t = if m < q { m } else { q };
                        assert forall|k: int| p <= k < t implies #[trigger] cf(a, k) == fzero() || cf(b, cap() - 1 - k) == fzero() by {
                            if k < x.0 { assert(ai > 0 ==> end(a[ai - 1]) <= p); gap_at(a, ai, k); }
                            else { assert(k < lo); assert(bi < b.len() ==> cap() - b[bi].0 <= p); gap_at(b, bi, cap() - 1 - k); }
                        }
                        assert(t >= p);
                        rd_skip(a, b, p, t);
                        assert(q >= p);
                        p = q;
                        assert(a.subrange(ai, a.len() as int).drop_first() =~= a.subrange(ai + 1, a.len() as int));
                        assert(b.subrange(0, bi).reverse().drop_first() =~= b.subrange(0, bi - 1).reverse());
                        if end(x) <= hi { ai = ai + 1; }
                        if hi <= end(x) { bi = bi - 1; }
                        assert(ai < a.len() ==> ai > 0 ==> end(a[ai - 1]) <= a[ai].0);
                        assert(bi > 0 && bi < b.len() ==> end(b[bi - 1]) <= b[bi].0);
                    } }"""),
               dict(inv="""invariant wf(a), wf(b), 0 <= ai__ < a.len(), 0 < bi__ <= b.len(), n__ == $hi - $lo, n__ == a_slice.len(), n__ == b_slice.len(), $lo <= $hi <= cap(),
                a[ai__].0 <= $lo, $hi <= end(a[ai__]), b[bi__ - 1].0 <= cap() - $hi, cap() - $lo <= end(b[bi__ - 1]),
                a_slice@ == a[ai__].1@.subrange($lo - a[ai__].0, $hi - a[ai__].0), b_slice@ == b[bi__ - 1].1@.subrange(cap() - $hi - b[bi__ - 1].0, cap() - $lo - b[bi__ - 1].0),
                $result == rd(a, b, $lo + it1.index()),""",
                    start="""proof { let k = $lo + it1.index(); coeff_at(a, ai__, k); coeff_at(b, bi__ - 1, cap() - 1 - k); }""")],
    ),
    dict(
        name="combine_assign", file=FILE, title="coefficient by coefficient the given operation, for every pair of block layouts",
        sig="pub fn combine_assign(this: &mut Polynomial, other: &Polynomial)",
        spec="""requires wf(old(this).blocks@), wf(other.blocks@)
            ensures wf(final(this).blocks@), forall|k: int| #[trigger] cf(final(this).blocks@, k) == opf(cf(old(this).blocks@, k), cf(other.blocks@, k)),""",
        context=MERGE, rlimit=200,
        transform=[(merge_loops, "loops over sub-slices and zipped slices become loops over an index")],
        rewrite=[(r"\bself\b", "this", "method receiver"),
                 (r"core::mem::take\(&mut this\.blocks\)", "take_blocks(&mut this.blocks)", "mem::take leaves the empty vector"),
                 (r"core::mem::take\(&mut ([^()]*?\.1)\)", r"take_block(&mut \1)", "mem::take leaves the empty vector"),
                 (r"alloc::vec!\[F::ZERO; ([^\]]*)\]", r"zeros(\1)", "vec! of zeros")],
        pre="""let ghost l0 = this.blocks@; let ghost r0 = other.blocks@; let ghost E: int = 0;
            proof {
                cap_positive(); few(l0, l0.len() as int); few(r0, r0.len() as int);
                assert forall|x: F| #[trigger] opf(x, fzero()) == x by { opf_zero(x); }
                assert forall|k: int| k < 0 implies #[trigger] cf(l0, k) == fzero() by { coeff_gap(l0, k); }
                assert forall|k: int| k < 0 implies #[trigger] cf(r0, k) == fzero() by { coeff_gap(r0, k); }
            }""",
        names={"out": r"let mut (\w+) = Vec::new\(\)", "cs": r"let mut cluster_end = (\w+);", "ce": r"let mut (\w+) = cluster_start;"},
        loops=[
            dict(inv="""invariant other.blocks@ == r0, this.blocks@ == l0, wf(r0), l0.len() == 0, it0.seq().len() == r0.len(),
                forall|k: int| 0 <= k < r0.len() ==> *(#[trigger] it0.seq()[k]) == r0[k], it0.index() <= r0.len(),
                forall|x: F| #[trigger] opf(x, fzero()) == x,
                E == if it0.index() == 0 { 0 } else { end(r0[it0.index() - 1]) }, 0 <= E,
                wf(out@), below(out@, E), forall|k: int| k < E ==> #[trigger] cf(out@, k) == opf(fzero(), cf(r0, k)),""",
                 start="""let ghost i__ = it0.index() as int; let ghost o__ = out@;
                    proof {
                        assert(*it0.seq()[i__] == r0[i__]); assert(end(r0[i__]) <= cap());
                        assert(E <= r0[i__].0) by { if i__ > 0 { assert(end(r0[i__ - 1]) <= r0[i__].0); } };
                        assert forall|k: int| E <= k < r0[i__].0 implies #[trigger] cf(r0, k) == fzero() by { gap_at(r0, i__, k); }
                        assert forall|k: int| k >= E implies #[trigger] cf(o__, k) == fzero() by { coeff_above(o__, E, k); }
                        assert forall|k: int| r0[i__].0 <= k < end(r0[i__]) implies #[trigger] cf(r0, k) == r0[i__].1[k - r0[i__].0] by { coeff_at(r0, i__, k); }
                        E = end(r0[i__]);
                    }""",
                 after="""proof {
                        assert forall|k: int| #[trigger] cf(out@, k) == opf(cf(l0, k), cf(r0, k)) by {
                            if k >= E { coeff_above(out@, E, k); gap_at(r0, r0.len() as int, k); }
                        }
                    }"""),
            dict(inv="""invariant v.len() == d.len(), n__ == d.len(), d@ == r0[i__].1@, forall|j: int| 0 <= j < d.len() ==> #[trigger] v[j] == if j < it1.index() { opf(fzero(), r0[i__].1[j]) } else { fzero() },"""),
            dict(inv="""invariant wf(l0), wf(r0), lhs.len() == l0.len(), rhs@ == r0, rhs == &other.blocks, li <= l0.len(), ri <= r0.len(), cap() > 0, other.blocks@ == r0,
                forall|j: int| li <= j < l0.len() ==> #[trigger] lhs[j] == l0[j],
                forall|x: F| #[trigger] opf(x, fzero()) == x,
                0 <= E <= cap(), wf(out@), below(out@, E),
                forall|i: int| 0 <= i < li ==> end(#[trigger] l0[i]) <= E, forall|i: int| 0 <= i < ri ==> end(#[trigger] r0[i]) <= E,
                forall|i: int| li <= i < l0.len() ==> (#[trigger] l0[i]).0 >= E, forall|i: int| ri <= i < r0.len() ==> (#[trigger] r0[i]).0 >= E,
                forall|k: int| k < E ==> #[trigger] cf(out@, k) == merged(l0, r0, k),
                l0.len() <= cap(), r0.len() <= cap(), cap() <= usize::MAX / 4,
                ensures li == l0.len(), ri == r0.len(),
                decreases l0.len() - li + r0.len() - ri,""",
                 start="""let ghost e0 = E; let ghost o0 = out@; let ghost l1 = li as int; let ghost r1 = ri as int; let ghost q1 = l0.len() - li + r0.len() - ri;
                    proof {
                        if li < l0.len() { assert(lhs[li as int] == l0[li as int]); assert(end(l0[li as int]) <= cap()); }
                        if ri < r0.len() { assert(end(r0[ri as int]) <= cap()); }
                    }""",
                 end="""proof {
                        assert forall|k: int| k < E implies #[trigger] cf(out@, k) == merged(l0, r0, k) by {
                            if e0 <= k < $cs { assert(cf(o0, k) == fzero()); }
                            if $cs <= k { assert(data__[k - $cs] == merged(l0, r0, $cs + (k - $cs))); }
                        }
                    }""",
                 after="""proof {
                        assert forall|k: int| #[trigger] cf(out@, k) == opf(cf(l0, k), cf(r0, k)) by {
                            if k >= E { coeff_above(out@, E, k); gap_at(r0, r0.len() as int, k); gap_at(l0, l0.len() as int, k); }
                        }
                    }"""),
            dict(inv="""invariant_except_break wf(l0), wf(r0), lhs.len() == l0.len(), rhs@ == r0, l1 <= li <= l0.len(), r1 <= ri <= r0.len(), li_start == l1, ri_start == r1,
                forall|j: int| l1 <= j < l0.len() ==> #[trigger] lhs[j] == l0[j],
                0 <= $cs <= $ce <= cap(), li == l1 && ri == r1 ==> $ce == $cs,
                (l1 < l0.len() && l0[l1].0 == $cs) || (r1 < r0.len() && r0[r1].0 == $cs),
                forall|i: int| l1 <= i < l0.len() ==> (#[trigger] l0[i]).0 >= $cs, forall|i: int| r1 <= i < r0.len() ==> (#[trigger] r0[i]).0 >= $cs,
                forall|i: int| l1 <= i < li ==> end(#[trigger] l0[i]) <= $ce, forall|i: int| r1 <= i < ri ==> end(#[trigger] r0[i]) <= $ce,
                ensures wf(l0), wf(r0), lhs.len() == l0.len(), rhs@ == r0, l1 <= li <= l0.len(), r1 <= ri <= r0.len(), li_start == l1, ri_start == r1,
                forall|j: int| l1 <= j < l0.len() ==> #[trigger] lhs[j] == l0[j],
                0 <= $cs <= $ce <= cap(), li > l1 || ri > r1,
                forall|i: int| l1 <= i < l0.len() ==> (#[trigger] l0[i]).0 >= $cs, forall|i: int| r1 <= i < r0.len() ==> (#[trigger] r0[i]).0 >= $cs,
                forall|i: int| l1 <= i < li ==> end(#[trigger] l0[i]) <= $ce, forall|i: int| r1 <= i < ri ==> end(#[trigger] r0[i]) <= $ce,
                li < l0.len() ==> l0[li as int].0 > $ce, ri < r0.len() ==> r0[ri as int].0 > $ce,
                decreases l0.len() - li + r0.len() - ri,""",
                 before="""proof {
                        assert forall|i: int| l1 <= i < l0.len() implies (#[trigger] l0[i]).0 >= $cs by { if i > l1 { assert(end(l0[l1]) <= l0[i].0); } }
                        assert forall|i: int| r1 <= i < r0.len() implies (#[trigger] r0[i]).0 >= $cs by { if i > r1 { assert(end(r0[r1]) <= r0[i].0); } }
                    }""",
                 start="let ghost s__ = $ce; let ghost sl = li; let ghost sr = ri;",
                 after="""proof {
                        E = $ce as int;
                        assert(e0 <= $cs);
                        assert forall|i: int| li <= i < l0.len() implies (#[trigger] l0[i]).0 > $ce by { if i > li { assert(end(l0[li as int]) <= l0[i].0); } }
                        assert forall|i: int| ri <= i < r0.len() implies (#[trigger] r0[i]).0 > $ce by { if i > ri { assert(end(r0[ri as int]) <= r0[i].0); } }
                        assert forall|k: int| e0 <= k < $cs implies #[trigger] cf(l0, k) == fzero() by { gap_at(l0, l1, k); }
                        assert forall|k: int| e0 <= k < $cs implies #[trigger] cf(r0, k) == fzero() by { gap_at(r0, r1, k); }
                        assert forall|k: int| k >= e0 implies #[trigger] cf(o0, k) == fzero() by { coeff_above(o0, e0, k); }
                        if ri == r1 { assert forall|k: int| e0 <= k < $ce implies #[trigger] cf(r0, k) == fzero() by { gap_at(r0, r1, k); } }
                        if li == l1 + 1 && l0[l1].0 == $cs && l0[l1].1.len() == $ce - $cs {
                            assert forall|j: int| 0 <= j < $ce - $cs implies #[trigger] l0[l1].1[j] == cf(l0, $cs + j) by { coeff_at(l0, l1, $cs + j); }
                        }
                    }"""),
            dict(inv="""invariant wf(l0), wf(r0), lhs.len() == l0.len(), rhs@ == r0, l1 <= li <= l0.len(), r1 <= ri <= r0.len(), sl <= li, sr == ri,
                forall|j: int| l1 <= j < l0.len() ==> #[trigger] lhs[j] == l0[j],
                0 <= $cs <= $ce <= cap(), li == l1 && ri == r1 ==> $ce == $cs,
                forall|i: int| l1 <= i < li ==> end(#[trigger] l0[i]) <= $ce, forall|i: int| r1 <= i < ri ==> end(#[trigger] r0[i]) <= $ce,
                !extended ==> li == sl && $ce == s__, extended ==> li > sl,
                decreases l0.len() - li,""",
                 start="proof { assert(lhs[li as int] == l0[li as int]); assert(end(l0[li as int]) <= cap()); }"),
            dict(inv="""invariant wf(l0), wf(r0), lhs.len() == l0.len(), rhs@ == r0, l1 <= li <= l0.len(), r1 <= ri <= r0.len(), sl <= li, sr <= ri,
                forall|j: int| l1 <= j < l0.len() ==> #[trigger] lhs[j] == l0[j],
                0 <= $cs <= $ce <= cap(), li == l1 && ri == r1 ==> $ce == $cs,
                forall|i: int| l1 <= i < li ==> end(#[trigger] l0[i]) <= $ce, forall|i: int| r1 <= i < ri ==> end(#[trigger] r0[i]) <= $ce,
                !extended ==> li == sl && ri == sr && $ce == s__ && (li < l0.len() ==> l0[li as int].0 > $ce), extended ==> li > sl || ri > sr,
                decreases r0.len() - ri,""",
                 start="proof { assert(end(r0[ri as int]) <= cap()); }"),
            dict(inv="""invariant wf(l0), lhs.len() == l0.len(), l1 <= li <= l0.len(), e0 <= $cs, li_start == l1,
                forall|j: int| l1 + it6.index() <= j < l0.len() ==> #[trigger] lhs[j] == l0[j],
                forall|i: int| l1 <= i < l0.len() ==> (#[trigger] l0[i]).0 >= $cs,
                forall|x: F| #[trigger] opf(x, fzero()) == x,
                forall|k: int| e0 <= k < $ce ==> #[trigger] cf(r0, k) == fzero(), forall|k: int| e0 <= k < $cs ==> #[trigger] cf(l0, k) == fzero(),
                forall|i: int| l1 <= i < li ==> end(#[trigger] l0[i]) <= $ce,
                forall|i: int| 0 <= i < l1 ==> end(#[trigger] l0[i]) <= e0,
                f6 == if it6.index() == 0 { e0 } else { end(l0[l1 + it6.index() - 1]) }, wf(out@), below(out@, f6), e0 <= f6,
                it6.index() > 0 ==> f6 >= $cs, f6 <= $ce,
                forall|k: int| k < f6 ==> #[trigger] cf(out@, k) == merged(l0, r0, k),""",
                 before="let ghost f6: int = e0;",
                 start="""let ghost b6 = l1 + it6.index(); let ghost o6 = out@;
                    proof {
                        assert(lhs[b6] == l0[b6]); assert(end(l0[b6]) <= $ce);
                        assert(f6 <= l0[b6].0) by { if b6 > l1 { assert(end(l0[b6 - 1]) <= l0[b6].0); } };
                        assert forall|k: int| f6 <= k < l0[b6].0 implies #[trigger] cf(l0, k) == fzero() by { gap_at(l0, b6, k); }
                        assert forall|k: int| k >= f6 implies #[trigger] cf(o6, k) == fzero() by { coeff_above(o6, f6, k); }
                        assert forall|k: int| l0[b6].0 <= k < end(l0[b6]) implies #[trigger] cf(l0, k) == l0[b6].1[k - l0[b6].0] by { coeff_at(l0, b6, k); }
                        assert forall|x: Block| x.0 == l0[b6].0 && x.1@ == l0[b6].1@ implies wf(#[trigger] o6.push(x)) && below(o6.push(x), end(x))
                            && forall|k: int| #[trigger] cf(o6.push(x), k) == (if x.0 <= k < end(x) { x.1[k - x.0] } else { cf(o6, k) }) by { push_block(o6, x); }
                        f6 = end(l0[b6]);
                    }""",
                 after="""proof {
                        assert forall|k: int| k < $ce implies #[trigger] cf(out@, k) == merged(l0, r0, k) by {
                            if k >= f6 { coeff_above(out@, f6, k); gap_at(l0, li as int, k); }
                        }
                    }"""),
            dict(inv="""invariant wf(l0), lhs.len() == l0.len(), l1 <= li <= l0.len(), e0 <= $cs, cluster_len == $ce - $cs, data.len() == cluster_len, $ce <= cap(),
                li_start == l1,
                forall|j: int| l1 <= j < l0.len() ==> #[trigger] lhs[j] == l0[j],
                forall|i: int| l1 <= i < l0.len() ==> (#[trigger] l0[i]).0 >= $cs,
                forall|i: int| l1 <= i < li ==> end(#[trigger] l0[i]) <= $ce,
                forall|i: int| 0 <= i < l1 ==> end(#[trigger] l0[i]) <= e0,
                f7 == if it7.index() == 0 { $cs as int } else { end(l0[l1 + it7.index() - 1]) }, $cs <= f7 <= $ce,
                forall|j: int| 0 <= j < cluster_len ==> #[trigger] data[j] == if $cs + j < f7 { cf(l0, $cs + j) } else { fzero() },""",
                 before="let ghost f7: int = $cs as int;",
                 start="""let ghost b7 = l1 + it7.index();
                    proof {
                        assert(lhs[b7] == l0[b7]); assert(end(l0[b7]) <= $ce);
                        assert(f7 <= l0[b7].0) by { if b7 > l1 { assert(end(l0[b7 - 1]) <= l0[b7].0); } };
                        assert forall|k: int| f7 <= k < l0[b7].0 implies #[trigger] cf(l0, k) == fzero() by { gap_at(l0, b7, k); }
                        assert forall|k: int| l0[b7].0 <= k < end(l0[b7]) implies #[trigger] cf(l0, k) == l0[b7].1[k - l0[b7].0] by { coeff_at(l0, b7, k); }
                        f7 = end(l0[b7]);
                    }""",
                 after="""proof {
                        assert forall|j: int| 0 <= j < cluster_len implies #[trigger] data[j] == cf(l0, $cs + j) by { if $cs + j >= f7 { gap_at(l0, li as int, $cs + j); } }
                    }"""),
            dict(inv="""invariant wf(r0), rhs@ == r0, r1 <= ri <= r0.len(), e0 <= $cs, cluster_len == $ce - $cs, data.len() == cluster_len, $ce <= cap(),
                ri_start == r1,
                forall|x: F| #[trigger] opf(x, fzero()) == x,
                forall|i: int| r1 <= i < r0.len() ==> (#[trigger] r0[i]).0 >= $cs,
                forall|i: int| r1 <= i < ri ==> end(#[trigger] r0[i]) <= $ce,
                forall|i: int| 0 <= i < r1 ==> end(#[trigger] r0[i]) <= e0,
                f8 == if it8.index() == 0 { $cs as int } else { end(r0[r1 + it8.index() - 1]) }, $cs <= f8 <= $ce,
                forall|j: int| 0 <= j < cluster_len ==> #[trigger] data[j] == if $cs + j < f8 { merged(l0, r0, $cs + j) } else { cf(l0, $cs + j) },""",
                 before="""let ghost f8: int = $cs as int;
                    assert(data.len() == cluster_len);
                    assert(forall|j: int| 0 <= j < cluster_len ==> #[trigger] data[j] == cf(l0, $cs + j));""",
                 start="""let ghost b8 = r1 + it8.index(); let ghost s8 = r0[b8].0; let ghost g8 = f8;
                    proof {
                        assert(end(r0[b8]) <= $ce);
                        assert(f8 <= r0[b8].0) by { if b8 > r1 { assert(end(r0[b8 - 1]) <= r0[b8].0); } };
                        assert forall|k: int| f8 <= k < r0[b8].0 implies #[trigger] cf(r0, k) == fzero() by { gap_at(r0, b8, k); }
                        assert forall|k: int| r0[b8].0 <= k < end(r0[b8]) implies #[trigger] cf(r0, k) == r0[b8].1[k - r0[b8].0] by { coeff_at(r0, b8, k); }
                        f8 = end(r0[b8]);
                    }""",
                 after="""let ghost data__ = data@;
                    proof {
                        assert forall|j: int| 0 <= j < cluster_len implies #[trigger] data[j] == merged(l0, r0, $cs + j) by { if $cs + j >= f8 { gap_at(r0, ri as int, $cs + j); } }
                        assert forall|x: Block| x.0 == $cs && x.1@ == data__ && x.1@.len() > 0 implies wf(#[trigger] o0.push(x)) && below(o0.push(x), end(x))
                            && forall|k: int| #[trigger] cf(o0.push(x), k) == (if x.0 <= k < end(x) { x.1[k - x.0] } else { cf(o0, k) }) by { push_block(o0, x); }
                    }"""),
            dict(inv="""invariant data.len() == cluster_len, $cs + cluster_len == $ce, $cs <= g8 <= s8, n__ == rd.len(), rd@ == r0[b8].1@, lo__ == s8 - $cs, s8 == r0[b8].0, s8 + rd.len() <= $ce,
                f8 == s8 + rd.len(),
                forall|k: int| g8 <= k < s8 ==> #[trigger] cf(r0, k) == fzero(),
                forall|k: int| s8 <= k < f8 ==> #[trigger] cf(r0, k) == r0[b8].1[k - s8],
                forall|x: F| #[trigger] opf(x, fzero()) == x,
                forall|j: int| 0 <= j < cluster_len ==> #[trigger] data[j] == if $cs + j < s8 + it9.index() { merged(l0, r0, $cs + j) } else { cf(l0, $cs + j) },"""),
        ],
    ),
    dict(
        name="add_assign closure", fn="add_assign", file=FILE, title="addition is an instance of combine_assign",
        sig="pub fn add_closure(x__: &mut F, y__: &F)", spec="ensures *final(x__) == fadd(*old(x__), *y__), forall|v: F| #[trigger] fadd(v, fzero()) == v,",
        transform=[(closure_of, "the closure passed to combine_assign is taken as a function")],
        post="proof { assert forall|v: F| #[trigger] fadd(v, fzero()) == v by { add_zero(v); } }", loops=[],
    ),
    dict(
        name="sub_assign closure", fn="sub_assign", file=FILE, title="subtraction is an instance of combine_assign",
        sig="pub fn sub_closure(x__: &mut F, y__: &F)", spec="ensures *final(x__) == fsub(*old(x__), *y__), forall|v: F| #[trigger] fsub(v, fzero()) == v,",
        transform=[(closure_of, "the closure passed to combine_assign is taken as a function")],
        post="proof { neg_zero(); assert forall|v: F| #[trigger] fsub(v, fzero()) == v by { add_zero(v); } }", loops=[],
    ),
    dict(
        name="from_blocks", file=FILE, title="never yields a polynomial whose blocks are out of order, empty, overlapping or out of range",
        sig="pub fn from_blocks(blocks: Vec<Block>) -> (r: Polynomial)",
        spec="requires forall|i: int| 0 <= i < blocks.len() ==> end(#[trigger] blocks[i]) <= usize::MAX ensures r.blocks == blocks, wf(r.blocks@),",
        rewrite=[(r"\bSelf \{", "Polynomial {", "the type by name"), (r"_marker: PhantomData,?", "", "the phantom field")], loops=[],
    ),
    dict(
        name="from_coeffs", file=FILE, title="the dense vector itself, for every vector; too long ones are refused",
        sig="pub fn from_coeffs(coeffs: Vec<F>) -> (r: Polynomial)",
        spec="ensures coeffs.len() <= cap(), wf(r.blocks@), forall|k: int| 0 <= k < cap() ==> #[trigger] cf(r.blocks@, k) == if k < coeffs.len() { coeffs[k] } else { fzero() },",
        context=EXTEND + """#[verifier::external_body] fn from_blocks(blocks: Vec<Block>) -> (r: Polynomial)
            requires forall|i: int| 0 <= i < blocks.len() ==> end(#[trigger] blocks[i]) <= usize::MAX ensures r.blocks == blocks, wf(r.blocks@) { unimplemented!() }""",
        transform=[ASSERTS], rewrite=[(r"Self::from_blocks", "from_blocks", "the function by name"), (r"(let mut \w+) = Vec::new\(\)", r"\1: Vec<Block> = Vec::new()", "the inferred type")], loops=[],
    ),
    dict(
        name="iter_coeffs", file=FILE, title="starts at all coefficients",
        sig="pub fn iter_coeffs<'a>(this: &'a Polynomial) -> (r: CoeffIter<'a>)",
        spec="requires wf(this.blocks@) ensures r.inv(), r.blocks@ == this.blocks@, r.front == 0, r.back == cap(),",
        rewrite=[(r"\bself\b", "this", "method receiver"), (r"blocks: &(\w+)\.blocks", r"blocks: \1.blocks.as_slice()", "the vector as a slice")],
        pre="proof { assert forall|i: int| 0 <= i < this.blocks.len() implies end(#[trigger] this.blocks[i]) <= cap() by { assert(this.blocks@[i].1.len() > 0); } }",
        loops=[],
    ),
    dict(
        name="Trace::map_to_blocks", fn="map_to_blocks", within="impl Perspective for Trace", file=VIEW, title="every wire buffer at its degrees, for all lengths that fit",
        sig="pub fn map_to_blocks(a: Vec<F>, b_: Vec<F>, c: Vec<F>, d_: Vec<F>, n: usize) -> (r: Vec<Block>)",
        spec="requires a.len() <= n, b_.len() <= n, c.len() <= n, d_.len() <= n, 4 * n == cap() ensures wf(r@), forall|k: int| #[trigger] cf(r@, k) == laid_out(a@, b_@, c@, d_@, n as int, k),",
        context=TRACE, pre="let mut b = b_; let mut d = d_; let ghost g0: Seq<Block> = Seq::empty(); proof { push_any(g0, 0); }",
        rewrite=[(r"\b([bd])\.reverse\(\)", r"reverse(&mut \1)", "slice::reverse"), (r"(let mut \w+) = Vec::new\(\);", r"\1: Vec<Block> = Vec::new(); assert(blocks@ =~= g0);", "the inferred type"),
                 (r"(\w+)\.push\(([^;]*)\);", r"proof { push_any(\1@, (if \1@.len() == 0 { 0 } else { end(\1@.last()) })); } \1.push(\2);", "ghost call of the lemma on appending a block")],
        loops=[],
    ),
    dict(
        name="Wiring::map_to_blocks", fn="map_to_blocks", within="impl Perspective for Wiring", file=VIEW, title="the trace's layout with a and b, c and d exchanged, for all lengths that fit",
        sig="pub fn map_to_blocks_(a: Vec<F>, b: Vec<F>, c: Vec<F>, d: Vec<F>, n: usize) -> (r: Vec<Block>)",
        spec="requires " + FITS + " ensures wf(r@), forall|k: int| #[trigger] cf(r@, k) == laid_out(b@, a@, d@, c@, n as int, k),",
        context=TRACE + """pub struct Trace {} impl Trace { #[verifier::external_body] pub fn map_to_blocks(a: Vec<F>, b: Vec<F>, c: Vec<F>, d: Vec<F>, n: usize) -> (r: Vec<Block>)
            requires """ + FITS + """ ensures wf(r@), forall|k: int| #[trigger] cf(r@, k) == laid_out(a@, b@, c@, d@, n as int, k) { unimplemented!() } }""",
        loops=[],
    ),
    dict(
        name="View::build", fn="build", file=VIEW, title="the dense meaning of the four wire buffers, for all lengths; buffers that do not fit are refused",
        sig="pub fn build(this: View_) -> (r: Polynomial)",
        spec="ensures this.a.len() * 4 <= cap(), this.b.len() * 4 <= cap(), this.c.len() * 4 <= cap(), this.d.len() * 4 <= cap(), wf(r.blocks@), forall|k: int| #[trigger] cf(r.blocks@, k) == laid_out(this.a@, this.b@, this.c@, this.d@, (cap() / 4) as int, k),",
        context=TRACE + EXTEND + """pub struct View_ { pub a: Vec<F>, pub b: Vec<F>, pub c: Vec<F>, pub d: Vec<F> }
            impl Polynomial { #[verifier::external_body] fn from_blocks(blocks: Vec<Block>) -> (r: Polynomial)
                requires forall|i: int| 0 <= i < blocks.len() ==> end(#[trigger] blocks[i]) <= usize::MAX ensures r.blocks == blocks, wf(r.blocks@) { unimplemented!() } }
            /// the perspective, with the contract proved for Trace (and for Wiring with its buffers exchanged)
            pub struct P {} impl P { #[verifier::external_body] pub fn map_to_blocks(a: Vec<F>, b: Vec<F>, c: Vec<F>, d: Vec<F>, n: usize) -> (r: Vec<Block>)
            requires """ + FITS + """ ensures wf(r@), forall|k: int| #[trigger] cf(r@, k) == laid_out(a@, b@, c@, d@, n as int, k) { unimplemented!() } }""",
        transform=[ASSERTS],
        rewrite=[(r"\bself\b", "this", "method receiver"), (r"for \((\w+), (\w+)\) in (\w+) \{", r"let ghost w0 = \3@; let ghost e1: int = 0; for p__ in \3 { let \1 = p__.0; let \2 = p__.1;", "the pair is taken apart in the body")],
        names={"out": r"let mut (\w+) = Vec::with_capacity"},
        loops=[dict(inv="""invariant it0.seq() == w0, wf(w0), it0.index() <= w0.len(), 0 <= e1,
                e1 == if it0.index() == 0 { 0 } else { end(w0[it0.index() - 1]) },
                wf($out@), below($out@, e1), forall|k: int| k < e1 ==> #[trigger] cf($out@, k) == cf(w0, k),""",
                    before="proof { assert forall|k: int| k < 0 implies #[trigger] cf(w0, k) == fzero() by { coeff_gap(w0, k); } }",
                    start="""let ghost i__ = it0.index() as int; let ghost o__ = $out@; let ghost d__ = e1;
                    proof {
                        assert(end(w0[i__]) <= cap());
                        assert(d__ <= w0[i__].0) by { if i__ > 0 { assert(end(w0[i__ - 1]) <= w0[i__].0); } };
                        assert forall|k: int| d__ <= k < w0[i__].0 implies #[trigger] cf(w0, k) == fzero() by { gap_at(w0, i__, k); }
                        assert forall|k: int| k >= d__ implies #[trigger] cf(o__, k) == fzero() by { coeff_above(o__, d__, k); }
                        assert forall|k: int| w0[i__].0 <= k < end(w0[i__]) implies #[trigger] cf(w0, k) == w0[i__].1[k - w0[i__].0] by { coeff_at(w0, i__, k); }
                        e1 = end(w0[i__]);
                    }""",
                    after="""proof {
                        assert forall|k: int| #[trigger] cf($out@, k) == cf(w0, k) by { if k >= e1 { coeff_above($out@, e1, k); gap_at(w0, w0.len() as int, k); } }
                        assert forall|i: int| 0 <= i < $out@.len() implies end(#[trigger] $out@[i]) <= usize::MAX by { assert($out@[i].1.len() > 0); }
                    }""")],
    ),
    dict(
        name="fold", file=FILE, title="Horner's rule in every coefficient, for any number of polynomials of any layout",
        sig="pub fn fold(polys: &[Polynomial], scale_factor: F) -> (r: Polynomial)",
        spec="requires forall|i: int| 0 <= i < polys.len() ==> wf((#[trigger] polys[i]).blocks@) ensures wf(r.blocks@), forall|k: int| #[trigger] cf(r.blocks@, k) == horner(polys@, polys.len() as int, k, scale_factor),",
        context="""
        pub open spec fn horner(p: Seq<Polynomial>, j: int, k: int, x: F) -> F decreases j { if j <= 0 { fzero() } else { fadd(fmul(horner(p, j - 1, k, x), x), cf(p[j - 1].blocks@, k)) } }
        impl Polynomial {
            #[verifier::external_body] fn default() -> (r: Polynomial) ensures r.blocks@.len() == 0 { unimplemented!() }
            #[verifier::external_body] fn scale(&mut self, by: F) requires wf(old(self).blocks@)
                ensures wf(final(self).blocks@), forall|k: int| #[trigger] cf(final(self).blocks@, k) == fmul(cf(old(self).blocks@, k), by) { unimplemented!() }
            #[verifier::external_body] fn add_assign(&mut self, other: &Polynomial) requires wf(old(self).blocks@), wf(other.blocks@)
                ensures wf(final(self).blocks@), forall|k: int| #[trigger] cf(final(self).blocks@, k) == fadd(cf(old(self).blocks@, k), cf(other.blocks@, k)) { unimplemented!() }
        }""",
        transform=[(folded, "fold with a closure is a loop")],
        rewrite=[(r"Self::default", "Polynomial::default", "the type by name"), (r"(\w+)\.borrow\(\)", r"\1", "borrow is the identity on references")],
        names={"acc": r"\|mut (\w+), \w+\|"},
        loops=[dict(inv="""invariant forall|i: int| 0 <= i < polys.len() ==> wf((#[trigger] polys[i]).blocks@), wf($acc.blocks@),
                forall|k: int| #[trigger] cf($acc.blocks@, k) == horner(polys@, it0.index() as int, k, scale_factor),""",
                    start="assert(wf(polys[it0.index() as int].blocks@));")],
    ),
]
