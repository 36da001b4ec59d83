"""C19, unbounded: folding of any number of claims in any number of groups of any size."""
import re

from c05 import MODULE
from field import prelude
from verus import ASSERTS, CHAINS, Lost, mask, split_args, unbrace

FILE = "crates/ragu_pcd/src/internal/fold_revdot.rs"
HORNER = "crates/ragu_circuits/src/horner.rs"
ELEMENT = "crates/ragu_primitives/src/element.rs"

ASSUME = [
    "Element::{mul, add, zero, one, invert} compute what C13 proves of them, and the driver does not fail",
    "sparse::Polynomial::{scale, add_assign, revdot} are the module operations and a bilinear form (C07 proves them equal to the dense operations)",
    "P::GroupSize::len() is positive and the capacity, and the number of pairs of one group, fit in usize; FixedVec holds its declared number of items (C18)",
]

SPEC = """
use super::md::*;
/// number of groups and size of a group
pub uninterp spec fn ng() -> nat;
pub uninterp spec fn gs() -> nat;
pub axiom fn sizes() ensures gs() >= 1, gs() * ng() <= usize::MAX, gs() * gs() <= usize::MAX, ng() * ng() <= usize::MAX;
#[verifier::external_body] fn num_groups() -> (r: usize) ensures r == ng() { unimplemented!() }
#[verifier::external_body] fn group_size() -> (r: usize) ensures r == gs() { unimplemented!() }
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
pub proof fn mone(a: F) ensures fmul(fone(), a) == a { mul_comm(a, fone()); mul_one(a); }
pub proof fn azero(a: F) ensures fadd(fzero(), a) == a { add_comm(a, fzero()); add_zero(a); }
pub proof fn zmul(x: F) ensures fmul(fzero(), x) == fzero() { mul_comm(fzero(), x); mul_zero(x); }
/// Horner's rule: the last item counts once, the first with the highest power
pub open spec fn hz(s: Seq<E>, x: F) -> E decreases s.len() { if s.len() == 0 { ez() } else { ea(sc(hz(s.drop_last(), x), x), s.last()) } }
pub open spec fn hf(s: Seq<F>, x: F) -> F decreases s.len() { if s.len() == 0 { fzero() } else { fadd(fmul(hf(s.drop_last(), x), x), s.last()) } }
/// group g of a list, missing items being zero
pub open spec fn group(s: Seq<E>, m: nat, g: nat) -> Seq<E> { Seq::new(m, |k: int| if g * m + k < s.len() { s[g * m + k] } else { ez() }) }
pub open spec fn groups(s: Seq<E>, m: nat, n: nat, x: F) -> Seq<E> { Seq::new(n, |g: int| hz(group(s, m, g as nat), x)) }
pub proof fn hz_zeros(s: Seq<E>, x: F) requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == ez() ensures hz(s, x) == ez() decreases s.len() {
    if s.len() > 0 { hz_zeros(s.drop_last(), x); sc_ez(x); e_zero(ez()); }
}
/// the reversed inner product: a bilinear form
pub uninterp spec fn rd(a: E, b: E) -> F;
pub axiom fn rd_left(a: E, c: E, b: E) ensures rd(ea(a, c), b) == fadd(rd(a, b), rd(c, b));
pub axiom fn rd_right(a: E, b: E, d: E) ensures rd(a, ea(b, d)) == fadd(rd(a, b), rd(a, d));
pub axiom fn rd_scale_left(a: E, b: E, x: F) ensures rd(sc(a, x), b) == fmul(rd(a, b), x);
pub axiom fn rd_scale_right(a: E, b: E, x: F) ensures rd(a, sc(b, x)) == fmul(rd(a, b), x);
pub proof fn rd_zero(a: E) ensures rd(a, ez()) == fzero(), rd(ez(), a) == fzero() { sc_ez(fzero()); rd_scale_right(a, ez(), fzero()); mul_zero(rd(a, ez())); rd_scale_left(ez(), a, fzero()); mul_zero(rd(ez(), a)); }
pub proof fn rd_fold_left(a: Seq<E>, q: E, x: F) ensures rd(hz(a, x), q) == hf(Seq::new(a.len(), |i: int| rd(a[i], q)), x) decreases a.len() {
    let s = Seq::new(a.len(), |i: int| rd(a[i], q));
    if a.len() == 0 { rd_zero(q); } else {
        rd_fold_left(a.drop_last(), q, x);
        assert(s.drop_last() =~= Seq::new(a.drop_last().len(), |i: int| rd(a.drop_last()[i], q)));
        rd_left(sc(hz(a.drop_last(), x), x), a.last(), q); rd_scale_left(hz(a.drop_last(), x), q, x);
    }
}
pub proof fn rd_fold_right(p: E, b: Seq<E>, x: F) ensures rd(p, hz(b, x)) == hf(Seq::new(b.len(), |i: int| rd(p, b[i])), x) decreases b.len() {
    let s = Seq::new(b.len(), |i: int| rd(p, b[i]));
    if b.len() == 0 { rd_zero(p); } else {
        rd_fold_right(p, b.drop_last(), x);
        assert(s.drop_last() =~= Seq::new(b.drop_last().len(), |i: int| rd(p, b.drop_last()[i])));
        rd_right(p, sc(hz(b.drop_last(), x), x), b.last()); rd_scale_right(p, hz(b.drop_last(), x), x);
    }
}
/// where the cross term (i, j) stands in the list of error terms
pub open spec fn at(n: nat, i: nat, j: nat) -> int { if j < i { i * (n - 1) + j } else { i * (n - 1) + j - 1 } }
pub open spec fn term(n: nat, errs: Seq<F>, ky: Seq<F>, i: nat, j: nat) -> F { if i == j { ky[i as int] } else { errs[at(n, i, j)] } }
pub open spec fn row(n: nat, errs: Seq<F>, ky: Seq<F>, i: nat, y: F) -> F { hf(Seq::new(n, |j: int| term(n, errs, ky, i, j as nat)), y) }
/// the folded claim
pub open spec fn claim(n: nat, errs: Seq<F>, ky: Seq<F>, x: F, y: F) -> F { hf(Seq::new(n, |i: int| row(n, errs, ky, i as nat, y)), x) }
pub open spec fn errors(a: Seq<E>, b: Seq<E>, e: Seq<F>) -> bool {
    &&& e.len() == a.len() * a.len() - a.len()
    &&& forall|i: nat, j: nat| i < a.len() && j < a.len() && i != j ==> e[#[trigger] at(a.len(), i, j)] == rd(a[i as int], b[j as int])
}
/// C19: with the right cross terms and true claims, the folded claim is the inner product of the folded polynomials
pub proof fn folding_preserves_truth(a: Seq<E>, b: Seq<E>, e: Seq<F>, ky: Seq<F>, x: F, y: F)
    requires a.len() == b.len(), ky.len() == a.len(), errors(a, b, e), forall|i: int| 0 <= i < a.len() ==> #[trigger] ky[i] == rd(a[i], b[i])
    ensures claim(a.len(), e, ky, x, y) == rd(hz(a, x), hz(b, y))
{
    let n = a.len(); let q = hz(b, y);
    rd_fold_left(a, q, x);
    let s = Seq::new(n, |i: int| row(n, e, ky, i as nat, y)); let t = Seq::new(n, |i: int| rd(a[i], q));
    assert forall|i: int| 0 <= i < n implies #[trigger] s[i] == t[i] by {
        rd_fold_right(a[i], b, y);
        let u = Seq::new(n, |j: int| term(n, e, ky, i as nat, j as nat)); let v = Seq::new(n, |j: int| rd(a[i], b[j]));
        assert forall|j: int| 0 <= j < n implies #[trigger] u[j] == v[j] by { if i != j { assert(e[at(n, i as nat, j as nat)] == rd(a[i], b[j])); } }
        assert(u =~= v);
    }
    assert(s =~= t);
}
pub open spec fn group_errors(a: Seq<E>, b: Seq<E>, m: nat, n: nat, e: Seq<Vec<F>>) -> bool { e.len() == n && forall|g: int| 0 <= g < n ==> errors(group(a, m, g as nat), group(b, m, g as nat), (#[trigger] e[g])@) }
/// both layers: true claims for the listed pairs and zero for the missing ones become one true claim
pub proof fn two_layers(a: Seq<E>, b: Seq<E>, m: nat, n: nat, e1: Seq<Vec<F>>, ky: Seq<Seq<F>>, e2: Seq<F>, x1: F, y1: F, x2: F, y2: F)
    requires a.len() == b.len(), a.len() <= m * n, ky.len() == n, group_errors(a, b, m, n, e1), errors(groups(a, m, n, x1), groups(b, m, n, y1), e2),
        forall|g: int| 0 <= g < n ==> (#[trigger] ky[g]).len() == m,
        forall|g: int, k: int| 0 <= g < n && 0 <= k < m ==> #[trigger] ky[g][k] == (if g * m + k < a.len() { rd(a[g * m + k], b[g * m + k]) } else { fzero() }),
    ensures ({
        let c1 = Seq::new(n, |g: int| claim(m, e1[g]@, ky[g], x1, y1));
        claim(n, e2, c1, x2, y2) == rd(hz(groups(a, m, n, x1), x2), hz(groups(b, m, n, y1), y2))
    })
{
    let c1 = Seq::new(n, |g: int| claim(m, e1[g]@, ky[g], x1, y1));
    let (ga, gb) = (groups(a, m, n, x1), groups(b, m, n, y1));
    assert forall|g: int| 0 <= g < n implies #[trigger] c1[g] == rd(ga[g], gb[g]) by {
        let (p, q) = (group(a, m, g as nat), group(b, m, g as nat));
        assert(ky[g].len() == m); assert(errors(p, q, e1[g]@));
        assert forall|i: int| 0 <= i < m implies #[trigger] ky[g][i] == rd(p[i], q[i]) by { rd_zero(ez()); }
        folding_preserves_truth(p, q, e1[g]@, ky[g], x1, y1);
    }
    folding_preserves_truth(ga, gb, e2, c1, x2, y2);
}
impl E {
    #[verifier::external_body] fn default() -> (r: E) ensures r == ez() { unimplemented!() }
    #[verifier::external_body] fn scale(&mut self, by: F) ensures *final(self) == sc(*old(self), by) { unimplemented!() }
    #[verifier::external_body] fn add_assign(&mut self, o: &E) ensures *final(self) == ea(*old(self), *o) { unimplemented!() }
    #[verifier::external_body] fn fold_scale(&mut self, by: F) ensures *final(self) == sc(*old(self), by) { unimplemented!() }
    #[verifier::external_body] fn fold_add_assign(&mut self, o: &E) ensures *final(self) == ea(*old(self), *o) { unimplemented!() }
    #[verifier::external_body] fn revdot(&self, o: &E) -> (r: F) ensures r == rd(*self, *o) { unimplemented!() }
}
#[verifier::external_body] fn owned(v: &Vec<E>) -> (r: Vec<E>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn refs<'a, T>(v: &'a [T]) -> (r: Vec<&'a T>) ensures r.len() == v.len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] == v[i] { unimplemented!() }
/// slice::chunks
#[verifier::external_body] fn chunks<'a, T>(v: &'a [T], m: usize) -> (r: Vec<&'a [T]>)
    requires m > 0
    ensures r.len() * m >= v.len(), r.len() > 0 ==> (r.len() - 1) * m < v.len(),
        forall|g: int| 0 <= g < r.len() ==> (#[trigger] r[g])@ == v@.subrange(g * m, if (g + 1) * m <= v.len() { (g + 1) * m } else { v.len() as int }) { unimplemented!() }
pub open spec fn padded<T>(s: Seq<T>, z: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| if i < s.len() { s[i] } else { z }) }
pub trait Adapt<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    /// chain(repeat_with(z)).take(n)
    fn padded(self, z: T, n: usize) -> (r: Vec<T>) ensures r@ == padded(self.items(), z, n as nat);
    /// chain(repeat(z).take(k))
    fn extended(self, z: T, k: usize) -> (r: Vec<T>) requires self.items().len() + k <= usize::MAX ensures r@ == padded(self.items(), z, (self.items().len() + k) as nat);
    /// collect_fixed().expect(..): the length is the declared one
    fn fixed(self, n: usize) -> (r: Vec<T>) requires self.items().len() == n ensures r@ == self.items();
}
impl<T> Adapt<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn padded(self, z: T, n: usize) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn extended(self, z: T, k: usize) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn fixed(self, n: usize) -> (r: Vec<T>) { unimplemented!() }
}
#[verifier::external_body] fn zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r.len() == if a.len() <= b.len() { a.len() } else { b.len() }, forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (a[i], b[i]) { unimplemented!() }
#[verifier::external_body] fn append<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body] fn when<T>(c: bool, v: T) -> (r: Option<T>) ensures r == (if c { Some(v) } else { None }) { unimplemented!() }
#[verifier::external_body] fn field_zeros(n: usize) -> (r: Vec<F>) ensures r.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r[k] == fzero() { unimplemented!() }
pub proof fn square(n: nat) ensures n * n >= n, n * n - n == n * (n - 1) { assert(n * n >= n) by (nonlinear_arith); assert(n * n - n == n * (n - 1)) by (nonlinear_arith); }
/// i * k, kept opaque for the solver
#[verifier::opaque] pub open spec fn times(i: nat, k: int) -> int { i * k }
pub proof fn at_range(n: nat, i: nat, j: nat) requires i < n, j < n, i != j ensures 0 <= at(n, i, j) < n * n - n {
    square(n);
    assert(i * (n - 1) + (n - 1) <= n * (n - 1)) by (nonlinear_arith) requires i + 1 <= n, n >= 1;
    assert(0 <= i * (n - 1)) by (nonlinear_arith) requires i >= 0, n >= 1;
}
/// NumErrorTerms::len, proved on its own
#[verifier::external_body] fn num_error_terms(n: usize) -> (r: usize) requires n * n <= usize::MAX ensures r == n * n - n { unimplemented!() }
pub open spec fn pairs(n: nat, s: Seq<(usize, usize)>) -> bool {
    s.len() == n * n - n && (forall|i: nat, j: nat| i < n && j < n && i != j ==> s[#[trigger] at(n, i, j)] == ((i as usize, j as usize)))
        && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < n && s[k].1 < n && s[k].0 != s[k].1 && at(n, s[k].0 as nat, s[k].1 as nat) == k
}
/// in-circuit elements by their value
#[verifier::external_body] pub struct El { x: u64 }
#[verifier::external_body] pub struct Driver { x: u64 }
#[derive(Debug)] pub struct Error {}
pub type Res<T> = Result<T, Error>;
impl El {
    pub uninterp spec fn v(&self) -> F;
    #[verifier::external_body] fn zero(dr: &mut Driver) -> (r: El) ensures r.v() == fzero() { unimplemented!() }
    #[verifier::external_body] fn one() -> (r: El) ensures r.v() == fone() { unimplemented!() }
    #[verifier::external_body] fn mul(&self, dr: &mut Driver, o: &El) -> (r: Res<El>) ensures r.is_ok(), r.unwrap().v() == fmul(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body] fn add(&self, dr: &mut Driver, o: &El) -> (r: El) ensures r.v() == fadd(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body] fn invert(&self, dr: &mut Driver) -> (r: Res<El>) ensures r.is_ok() == (self.v() != fzero()), r.is_ok() ==> fmul(self.v(), r.unwrap().v()) == fone() { unimplemented!() }
}
impl Clone for El { #[verifier::external_body] fn clone(&self) -> (r: El) ensures r.v() == self.v() { unimplemented!() } }
pub open spec fn vals(s: Seq<&El>) -> Seq<F> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn values(s: Seq<El>) -> Seq<F> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn fgroup(s: Seq<F>, m: nat, g: nat) -> Seq<F> { Seq::new(m, |k: int| if g * m + k < s.len() { s[g * m + k] } else { fzero() }) }
pub open spec fn fgroups(s: Seq<F>, m: nat, n: nat, x: F) -> Seq<F> { Seq::new(n, |g: int| hf(fgroup(s, m, g as nat), x)) }
pub proof fn hf_zeros(s: Seq<F>, x: F) requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == fzero() ensures hf(s, x) == fzero() decreases s.len() {
    if s.len() > 0 { hf_zeros(s.drop_last(), x); zmul(x); add_zero(fzero()); }
}
pub trait FirstItem<T>: Sized { spec fn all(&self) -> Seq<T>; fn first_item(self) -> (r: T) requires self.all().len() > 0 ensures r == self.all()[0]; }
impl<T> FirstItem<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn first_item(self) -> (r: T) { unimplemented!() } }
/// an iterator over references
pub struct Refs<'a> { pub s: Vec<&'a El>, pub pos: Ghost<int> }
impl<'a> Refs<'a> {
    #[verifier::external_body] fn new(s: Vec<&'a El>) -> (r: Refs<'a>) ensures r.s@ == s@, r.pos@ == 0 { unimplemented!() }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<&'a El>) ensures final(self).s@ == old(self).s@, old(self).pos@ < old(self).s.len() ==> r == Some(old(self).s[old(self).pos@]) && final(self).pos@ == old(self).pos@ + 1, old(self).pos@ >= old(self).s.len() ==> r is None && final(self).pos == old(self).pos { unimplemented!() }
    #[verifier::external_body] fn rest(self) -> (r: Vec<&'a El>) requires 0 <= self.pos@ <= self.s.len() ensures r@ == self.s@.skip(self.pos@) { unimplemented!() }
}
pub struct ClaimFolder { pub mu_nu: El, pub mu_inv: El }
/// a slice iterator
pub struct Cursor<'a> { pub s: &'a Vec<El>, pub pos: usize }
impl<'a> Cursor<'a> {
    fn new(s: &'a Vec<El>) -> (r: Cursor<'a>) ensures r.s@ == s@, r.pos == 0 { Cursor { s, pos: 0 } }
    /// next().expect(..)
    #[verifier::external_body] fn advance(&mut self) -> (r: &'a El) requires old(self).pos < old(self).s.len() ensures *r == old(self).s[old(self).pos as int], final(self).s@ == old(self).s@, final(self).pos == old(self).pos + 1 { unimplemented!() }
}
pub struct Horner<'a> { pub point: &'a El, pub result: Option<El> }
impl<'a> Horner<'a> {
    pub open spec fn val(&self) -> F { match self.result { Some(e) => e.v(), None => fzero() } }
}
"""
BUFFER = """
impl<'a> Horner<'a> {
    #[verifier::external_body] fn new(point: &'a El) -> (r: Horner<'a>) ensures r.point == point, r.val() == fzero() { unimplemented!() }
    #[verifier::external_body] fn write(&mut self, dr: &mut Driver, value: &El) -> (r: Res<()>) ensures r.is_ok(), final(self).point == old(self).point, final(self).val() == fadd(fmul(old(self).val(), old(self).point.v()), value.v()) { unimplemented!() }
    #[verifier::external_body] fn finish(self, dr: &mut Driver) -> (r: El) ensures r.v() == self.val() { unimplemented!() }
}
"""
FOLD = "#[verifier::external_body] fn fold(items: Vec<E>, scale_factor: F) -> (r: E) ensures r == hz(items@, scale_factor) { unimplemented!() }\n"
PAIRS = "#[verifier::external_body] fn off_diagonal_pairs(n: usize) -> (r: Vec<(usize, usize)>) requires n * n <= usize::MAX ensures pairs(n as nat, r@) { unimplemented!() }\n"
ERRORS = """#[verifier::external_body] fn compute_errors_impl(a: &[E], b: &[E], outer: usize, inner: usize) -> (r: Vec<Vec<F>>)
    requires inner >= 1, outer * inner <= usize::MAX, inner * inner <= usize::MAX
    ensures a.len() == b.len(), a.len() <= outer * inner, group_errors(a@, b@, inner as nat, outer as nat, r@) { unimplemented!() }
"""
IMPL = """#[verifier::external_body] fn fold_products_impl(dr: &mut Driver, mu_nu: &El, mu_inv: &El, error_terms: &Vec<El>, ky_values: &Vec<El>, n: usize) -> (r: Res<El>)
    requires n * n <= usize::MAX, error_terms.len() == n * n - n, ky_values.len() == n
    ensures r.is_ok(), r.unwrap().v() == claim(n as nat, values(error_terms@), values(ky_values@), mu_inv.v(), mu_nu.v()) { unimplemented!() }
"""
ELFOLD = """impl El { #[verifier::external_body] fn fold(dr: &mut Driver, elements: Vec<&El>, scale_factor: &El) -> (r: Res<El>) ensures r.is_ok(), r.unwrap().v() == hf(vals(elements@), scale_factor.v()) { unimplemented!() } }
"""
LENS = [(r"P::GroupSize::len\(\)", "group_size()", "the group size"), (r"P::NumGroups::len\(\)", "num_groups()", "the number of groups")]
PRELUDE = prelude("").replace("pub mod code {", MODULE + "\npub mod code {").replace("//@CODE", SPEC + "\n//@CODE")


def fixed(*lens):
    """collect_fixed().expect(..), in order of appearance, with the length its type declares."""
    todo = list(lens)

    def one(_):
        return f".fixed({todo.pop(0)})" if todo else ".fixed(unknown_length)"

    def run(body):
        todo[:] = lens
        return re.sub(r"\.collect_fixed\(\)\s*\.expect\([^)]*\)", one, body)

    return (run, "collect_fixed().expect(..) becomes `fixed`, which demands the declared length")


ELWRITE = "impl El { /// an element writes itself\n#[verifier::external_body] fn write(&self, dr: &mut Driver, buf: &mut Horner) -> (r: Res<()>) ensures r.is_ok(), final(buf).point == old(buf).point, final(buf).val() == fadd(fmul(old(buf).val(), old(buf).point.v()), self.v()) { unimplemented!() } }\n"
SIZES = {"P::NumGroups": "num_groups()", "P::GroupSize": "group_size()", "ConstLen<1>": "1"}
GENERIC_ERRORS = (r"compute_errors_impl::<F, R, ([\w:<>]+?), ([\w:<>]+?)>\((\w+), (\w+)\)", lambda h: f"compute_errors_impl({h[3]}, {h[4]}, {SIZES.get(h[1], h[1])}, {SIZES.get(h[2], h[2])})", "length parameters become arguments")
GENERIC_PRODUCTS = (r"fold_products_impl::<_, ([\w:]+)>\(([^()]*)\)", lambda h: f"fold_products_impl({h[2].strip().rstrip(',')}, {SIZES.get(h[1], h[1])})", "length parameters become arguments")
OR_ELSE = (r"([\w.]+)\s*\.unwrap_or_else\(\|\| (\w+::\w+\(\w+\))\)", lambda h: f"match {h[1]} {{ Some(x__) => x__, None => {h[2].replace('Element', 'El')} }}", "unwrap_or_else")


def tryfold(body):
    """`it.try_fold(init, |acc, e| b)` is a loop with `acc = b?`, and `r.map(|x| e)` of a result is a match."""
    m = mask(body)
    h = re.search(r"\b(\w+)\s*\.try_fold\(", m)
    if not h:
        raise Lost("try_fold not found")
    x, c = split_args(body, h.end() - 1)
    g = re.match(r"(?:move\s*)?\|(\w+), (\w+)\|(.*)$", x[1], re.S)
    b = unbrace(g[3])
    k = re.match(r"(.*)\.map\(\|(\w+)\| (.*)\)\s*$", b, re.S)
    if k:
        b = f"(match {k[1]} {{ Ok({k[2]}) => Ok({k[3]}), Err(x__) => Err(x__) }})"
    return body[:h.start()] + f"({{ let mut {g[1]} = {x[0]}; for {g[2]} in {h[1]}.rest() {{ {g[1]} = {b}?; }} Ok({g[1]}) }})" + body[c + 1:]


TRYFOLD = (tryfold, "try_fold becomes a loop")

FUNCTIONS = [
    dict(name="NumErrorTerms::len", fn="len", file=FILE, within=r"impl<L: Len> Len for NumErrorTerms<L>", title="n squared minus n", sig="pub fn len_(n_: usize) -> (r: usize)",
         spec="requires n_ * n_ <= usize::MAX ensures r == n_ * n_ - n_,", rewrite=[(r"L::len\(\)", "n_", "the number of claims")], pre="proof { square(n_ as nat); }"),
    dict(name="Foldable::fold_scale", fn="fold_scale", file=FILE, within=r"impl<F: Field, R: Rank> Foldable<F> for", title="scales the polynomial", sig="impl E { pub fn fold_scale_(&mut self, by: F)", spec="ensures *final(self) == sc(*old(self), by),", suffix="}"),
    dict(name="Foldable::fold_add_assign", fn="fold_add_assign", file=FILE, within=r"impl<F: Field, R: Rank> Foldable<F> for", title="adds the polynomial", sig="impl E { pub fn fold_add_assign_(&mut self, other: &E)", spec="ensures *final(self) == ea(*old(self), *other),", suffix="}"),
    dict(name="fold", file=FILE, title="Horner's rule, for any number of items", sig="pub fn fold(items: Vec<E>, scale_factor: F) -> (r: E)", spec="ensures r == hz(items@, scale_factor),",
         transform=[CHAINS], rewrite=[(r"T::default\(\)", "E::default()", "the type of the items"), (r"(\w+)\.borrow\(\)", r"&\1", "Borrow"), (r"\.into_iter\(\)", "", "into_iter")],
         names={"acc": r"\|mut (\w+),"},
         loops=[dict(inv="invariant it0.seq() == items@, $acc == hz(items@.take(it0.index() as int), scale_factor),",
                     start="let ghost k_ = it0.index() as int; proof { assert(items@.take(k_ + 1).drop_last() =~= items@.take(k_)); }", after="proof { assert(items@.take(items.len() as int) =~= items@); }")]),
    dict(name="fold_inner", file=FILE, title="every group is folded, missing items and groups counting as zero; more items than the capacity are refused",
         sig="pub fn fold_inner(source: &[E], scale_factor: F) -> (r: Vec<E>)", spec="ensures source.len() <= gs() * ng(), r@ == groups(source@, gs(), ng(), scale_factor),",
         transform=[ASSERTS, CHAINS, fixed("num_groups()")], context=FOLD, pre="proof { sizes(); }",
         rewrite=LENS + [(r"T::default\(\)", "E::default()", "the type of the items"), (r"\.borrow\(\)\.clone\(\)", ".clone()", "Borrow"), (r"(\w+)\s*\.chunks\(", r"chunks(\1, ", "slice::chunks")],
         names={"m": r"let (\w+) = P::\w+::len\(\)"},
         loops=[dict(inv="""invariant $m == gs(), $m >= 1, source.len() <= gs() * ng(), it0.seq().len() * $m >= source.len(), it0.seq().len() > 0 ==> (it0.seq().len() - 1) * $m < source.len(), o1__.len() == it0.index(), it0.index() <= it0.seq().len(),
                     forall|g: int| 0 <= g < it0.seq().len() ==> (#[trigger] it0.seq()[g])@ == source@.subrange(g * $m, if (g + 1) * $m <= source.len() { (g + 1) * $m } else { source.len() as int }),
                     forall|g: int| 0 <= g < o1__.len() ==> #[trigger] o1__[g] == hz(group(source@, gs(), g as nat), scale_factor),""",
                     start="""let ghost g_ = it0.index() as int; let ghost n_ = it0.seq().len() as int; let ghost c_ = it0.seq()[g_]@;
                         proof {
                             assert(0 <= g_ * $m) by (nonlinear_arith) requires g_ >= 0, $m >= 1;
                             assert((g_ + 1) * $m == g_ * $m + $m) by (nonlinear_arith);
                             assert(g_ * $m <= (n_ - 1) * $m) by (nonlinear_arith) requires g_ <= n_ - 1, $m >= 1;
                         }""",
                     after="""proof {
                         let n = o1__.len() as int;
                         assert forall|g: int| 0 <= g < ng() implies #[trigger] groups(source@, gs(), ng(), scale_factor)[g] == padded(o1__@, ez(), ng())[g] by {
                             if g >= n {
                                 assert(g * $m >= n * $m) by (nonlinear_arith) requires g >= n, $m >= 1;
                                 hz_zeros(group(source@, gs(), g as nat), scale_factor);
                             }
                         }
                         assert(groups(source@, gs(), ng(), scale_factor) =~= padded(o1__@, ez(), ng()));
                     }"""),
                dict(inv="invariant c_ == chunk@, it1.seq().len() == c_.len(), forall|k: int| 0 <= k < c_.len() ==> *(#[trigger] it1.seq()[k]) == c_[k], o0__.len() == it1.index(), forall|k: int| 0 <= k < o0__.len() ==> #[trigger] o0__[k] == c_[k],",
                     after="proof { assert(padded(o0__@, ez(), $m as nat) =~= group(source@, gs(), g_ as nat)); }")]),
    dict(name="fold_outer", file=FILE, title="one more fold over the groups", sig="pub fn fold_outer(source: Vec<E>, scale_factor: F) -> (r: E)", spec="ensures r == hz(source@, scale_factor),", context=FOLD,
         rewrite=[(r"source\.iter\(\)", "owned(&source)", "borrowed items")]),
    dict(name="off_diagonal_pairs", file=FILE, title="all pairs of different indices, row by row", sig="pub fn off_diagonal_pairs(n: usize) -> (r: Vec<(usize, usize)>)",
         spec="requires n * n <= usize::MAX ensures pairs(n as nat, r@),", transform=[CHAINS],
         rewrite=[(r"\(([^()]*)\)\.then_some\(", r"when(\1, ", "bool::then_some"), (r"let mut (o\d__) = ", r"let mut \1: Vec<(usize, usize)> = ", "the type of the items")], pre="proof { square(n as nat); }",
         loops=[dict(inv="""invariant n * n <= usize::MAX, it0.seq().len() == n, forall|k: int| 0 <= k < n ==> #[trigger] it0.seq()[k] == k, o1__.len() == it0.index() * (n - 1),
                     forall|i: nat, j: nat| i < it0.index() && j < n && i != j ==> o1__[#[trigger] at(n as nat, i, j)] == ((i as usize, j as usize)),
                     forall|k: int| 0 <= k < o1__.len() ==> (#[trigger] o1__[k]).0 < n && o1__[k].1 < n && o1__[k].0 != o1__[k].1 && at(n as nat, o1__[k].0 as nat, o1__[k].1 as nat) == k,""",
                     start="""let ghost r_ = it0.index() as int; let ghost b_ = o1__@;
                         proof { assert((r_ + 1) * (n - 1) == r_ * (n - 1) + (n - 1)) by (nonlinear_arith); }""",
                     end="""proof {
                         assert forall|i: nat, j: nat| i < r_ + 1 && j < n && i != j implies o1__[#[trigger] at(n as nat, i, j)] == ((i as usize, j as usize)) by {
                             if i < r_ {
                                 assert(i * (n - 1) + (n - 1) <= r_ * (n - 1)) by (nonlinear_arith) requires i + 1 <= r_, n >= 1;
                                 assert(0 <= i * (n - 1)) by (nonlinear_arith) requires i >= 0, n >= 1;
                                 assert(b_[at(n as nat, i, j)] == ((i as usize, j as usize)));
                             }
                         }
                     }""", after="proof { assert(n * n - n == n * (n - 1)) by (nonlinear_arith); }"),
                dict(inv="""invariant it1.seq().len() == n, forall|k: int| 0 <= k < n ==> #[trigger] it1.seq()[k] == k, i == r_, 0 <= r_ < n,
                     o0__.len() == it1.index() - (if it1.index() > r_ { 1int } else { 0 }), forall|k: int| 0 <= k < o0__.len() ==> #[trigger] o0__[k] == ((i, (if k < r_ { k } else { k + 1 }) as usize)),""")]),
    dict(name="compute_errors_impl", file=FILE, title="the cross terms of every group, missing items counting as zero; unequal or too many items are refused",
         sig="pub fn compute_errors_impl(a: &[E], b: &[E], outer: usize, inner: usize) -> (r: Vec<Vec<F>>)",
         spec="requires inner >= 1, outer * inner <= usize::MAX, inner * inner <= usize::MAX ensures a.len() == b.len(), a.len() <= outer * inner, group_errors(a@, b@, inner as nat, outer as nat, r@),",
         context=PAIRS, transform=[ASSERTS, CHAINS, fixed("num_error_terms(inner)", "outer")],
         rewrite=[(r"(\w+)\s*\.get\((\w+)\)\s*\.zip\((\w+)\.get\((\w+)\)\)\s*\.map_or\((F::ZERO), \|\((\w+), (\w+)\)\| ((?:[^()]|\([^()]*(?:\([^()]*\))?[^()]*\))*)\)",
                   r"if \2 < \1.len() && \4 < \3.len() { let \6 = &\1[\2]; let \7 = &\3[\4]; \8 } else { \5 }", "a missing item of either list gives the default"),
                  (r"\.borrow\(\)", "", "Borrow"), (r"(\w+)\s*\.chunks\(", r"chunks(\1, ", "slice::chunks"), (r"(chunks\(\w+, [^()]*(?:\(\))?\))\s*\.zip\((chunks\(\w+, [^()]*(?:\(\))?\))\)", r"zip(\1, \2)", "Iterator::zip"),
                  (r"FixedVec::from_fn\(\|_\| F::ZERO\)", "field_zeros(num_error_terms(inner))", "a vector of zeros of the declared length"), (r"Outer::len\(\)", "outer", "the number of groups"), (r"Inner::len\(\)", "inner", "the group size"),
                  (r"let mut (o1__) = ", r"let mut \1: Vec<Vec<F>> = ", "the type of the items"), (r"let mut (o0__) = ", r"let mut \1: Vec<F> = ", "the type of the items")],
         pre="let ghost mut n1_: int = 0;",
         post="""proof {
             square(inner as nat);
             assert forall|g: int| 0 <= g < outer implies errors(group(a@, inner as nat, g as nat), group(b@, inner as nat, g as nat), (#[trigger] r__[g])@) by {
                 let (p, q) = (group(a@, inner as nat, g as nat), group(b@, inner as nat, g as nat));
                 if g >= n1_ {
                     assert(g * inner >= n1_ * inner) by (nonlinear_arith) requires g >= n1_, inner >= 1;
                     assert forall|i: nat, j: nat| i < p.len() && j < p.len() && i != j implies r__[g]@[#[trigger] at(p.len(), i, j)] == rd(p[i as int], q[j as int]) by {
                         rd_zero(ez());
                         at_range(inner as nat, i, j);
                     }
                 }
             }
         }""",
         names={"ac": r"\.zip\([^|]*\|\((\w+), \w+\)\| \{", "bc": r"\.zip\([^|]*\|\(\w+, (\w+)\)\| \{"},
         loops=[dict(inv="""invariant inner >= 1, inner * inner <= usize::MAX, a.len() == b.len(), a.len() <= outer * inner, it0.seq().len() * inner >= a.len(), it0.seq().len() > 0 ==> (it0.seq().len() - 1) * inner < a.len(), it0.index() <= it0.seq().len(),
                     forall|g: int| 0 <= g < it0.seq().len() ==> (#[trigger] it0.seq()[g]).0@ == a@.subrange(g * inner, if (g + 1) * inner <= a.len() { (g + 1) * inner } else { a.len() as int }),
                     forall|g: int| 0 <= g < it0.seq().len() ==> (#[trigger] it0.seq()[g]).1@ == b@.subrange(g * inner, if (g + 1) * inner <= a.len() { (g + 1) * inner } else { a.len() as int }),
                     o1__.len() == it0.index(), forall|g: int| 0 <= g < o1__.len() ==> errors(group(a@, inner as nat, g as nat), group(b@, inner as nat, g as nat), (#[trigger] o1__[g])@),""",
                     start="""let ghost g_ = it0.index() as int; let ghost n_ = it0.seq().len() as int; let ghost p_ = group(a@, inner as nat, g_ as nat); let ghost q_ = group(b@, inner as nat, g_ as nat);
                         proof {
                             square(inner as nat);
                             assert(0 <= g_ * inner) by (nonlinear_arith) requires g_ >= 0, inner >= 1;
                             assert((g_ + 1) * inner == g_ * inner + inner) by (nonlinear_arith);
                             assert(g_ * inner <= (n_ - 1) * inner) by (nonlinear_arith) requires g_ <= n_ - 1, inner >= 1;
                         }""", after="proof { n1_ = o1__.len() as int; }"),
                dict(inv="""invariant pairs(inner as nat, it1.seq()), it1.seq() == d_, p_.len() == inner, q_.len() == inner, o0__.len() == it1.index(),
                     forall|i: int| 0 <= i < inner ==> #[trigger] p_[i] == (if i < $ac.len() { $ac[i] } else { ez() }), forall|i: int| 0 <= i < inner ==> #[trigger] q_[i] == (if i < $bc.len() { $bc[i] } else { ez() }),
                     forall|k: int| 0 <= k < o0__.len() ==> #[trigger] o0__[k] == rd(p_[it1.seq()[k].0 as int], q_[it1.seq()[k].1 as int]),""",
                     before="let ghost d_ = s0__@;", after="""proof {
                         assert forall|i: nat, j: nat| i < inner && j < inner && i != j implies o0__[#[trigger] at(inner as nat, i, j)] == rd(p_[i as int], q_[j as int]) by {
                             at_range(inner as nat, i, j); assert(d_[at(inner as nat, i, j)] == ((i as usize, j as usize)));
                         }
                         assert(errors(p_, q_, o0__@));
                     }""", start="proof { rd_zero(p_[it1.seq()[it1.index() as int].0 as int]); rd_zero(q_[it1.seq()[it1.index() as int].1 as int]); }")]),
    dict(name="inner_error_terms", file=FILE, title="cross terms of every first-layer group", sig="pub fn inner_error_terms(a: &[E], b: &[E]) -> (r: Vec<Vec<F>>)",
         spec="ensures a.len() == b.len(), a.len() <= gs() * ng(), group_errors(a@, b@, gs(), ng(), r@),", context=ERRORS, pre="proof { sizes(); assert(gs() * ng() == ng() * gs()) by (nonlinear_arith); }", rewrite=[GENERIC_ERRORS]),
    dict(name="outer_error_terms", file=FILE, title="cross terms of the second layer", sig="pub fn outer_error_terms(a: &[E], b: &[E]) -> (r: Vec<F>)",
         spec="requires ng() >= 1 ensures a.len() == b.len(), a.len() <= ng(), errors(group(a@, ng(), 0), group(b@, ng(), 0), r@), a.len() == ng() ==> errors(a@, b@, r@),", context=ERRORS, pre="proof { sizes(); }",
         rewrite=[GENERIC_ERRORS, (r"\.into_iter\(\)\s*\.next\(\)\s*\.expect\([^)]*\)", ".first_item()", "the first item, which must exist")],
         post="proof { if a.len() == ng() { assert(group(a@, ng(), 0) =~= a@); assert(group(b@, ng(), 0) =~= b@); } }"),
    dict(name="ClaimFolder::new", fn="new", file=FILE, within=r"impl<'dr, D: Driver<'dr>> ClaimFolder<'dr, D>", title="the product and the inverse; a zero mu is refused",
         sig="impl ClaimFolder { pub fn new(dr: &mut Driver, mu: &El, nu: &El) -> (r: Res<ClaimFolder>)",
         spec="ensures r.is_ok() == (mu.v() != fzero()), r.is_ok() ==> r.unwrap().mu_nu.v() == fmul(mu.v(), nu.v()) && fmul(mu.v(), r.unwrap().mu_inv.v()) == fone(),", suffix="}"),
    dict(name="fold_products_impl", file=FILE, title="the folded claim, for any number of claims",
         sig="pub fn fold_products_impl(dr: &mut Driver, mu_nu: &El, mu_inv: &El, error_terms: &Vec<El>, ky_values: &Vec<El>, size_: usize) -> (r: Res<El>)",
         spec="requires size_ * size_ <= usize::MAX, error_terms.len() == size_ * size_ - size_, ky_values.len() == size_ ensures r.is_ok(), r.unwrap().v() == claim(size_ as nat, values(error_terms@), values(ky_values@), mu_inv.v(), mu_nu.v()),",
         context=BUFFER, rewrite=[(r"S::len\(\)", "size_", "the number of claims"), (r"= (\w+)\.iter\(\)", r"= Cursor::new(\1)", "a slice iterator"), (r"\.next\(\)\s*\.expect\([^)]*\)", ".advance()", "the next item, which must exist")],
         names={"et": r"let mut (\w+) = error_terms\.iter", "ky": r"let mut (\w+) = ky_values\.iter", "oh": r"let mut (\w+) = Horner::new\(\w+\);\s*let", "ih": r"let mut (\w+) = Horner::new\(\w+\);\s*for",
                "i": r"for (\w+) in 0\.\.\w+ \{\s*let mut", "j": r"Horner::new\(\w+\);\s*for (\w+) in", "n": r"let (\w+) = S::len\(\)"},
         pre="let ghost e_ = values(error_terms@); let ghost k_ = values(ky_values@); let ghost s1_ = error_terms@; let ghost s2_ = ky_values@; proof { square(size_ as nat); reveal(times); assert(times(0, size_ - 1) == 0) by { assert(0 * (size_ - 1) == 0) by (nonlinear_arith); } }",
         loops=[dict(inv="""invariant $n == size_, size_ * size_ <= usize::MAX, s1_.len() == size_ * size_ - size_, s1_.len() == size_ * (size_ - 1), s2_.len() == size_, e_ == values(s1_), k_ == values(s2_), $et.s@ == s1_, $ky.s@ == s2_,
                     $et.pos == times($i as nat, (size_ - 1)), $ky.pos == $i, $oh.point == mu_inv, $oh.val() == hf(Seq::new($i as nat, |g: int| row(size_ as nat, e_, k_, g as nat, mu_nu.v())), mu_inv.v()),""",
                     start="""proof {
                         reveal(times);
                         assert(($i + 1) * (size_ - 1) == $i * (size_ - 1) + (size_ - 1)) by (nonlinear_arith);
                         assert(($i + 1) * (size_ - 1) <= size_ * (size_ - 1)) by (nonlinear_arith) requires $i + 1 <= size_, size_ >= 1;
                         assert(0 <= $i * (size_ - 1)) by (nonlinear_arith) requires $i >= 0, size_ >= 1;
                         let s = Seq::new(($i + 1) as nat, |g: int| row(size_ as nat, e_, k_, g as nat, mu_nu.v()));
                         assert(s.drop_last() =~= Seq::new($i as nat, |g: int| row(size_ as nat, e_, k_, g as nat, mu_nu.v())));
                     }"""),
                dict(inv="""invariant $n == size_, 0 <= $i < size_, size_ * size_ <= usize::MAX, s1_.len() == size_ * (size_ - 1), s2_.len() == size_, e_ == values(s1_), k_ == values(s2_), $et.s@ == s1_, $ky.s@ == s2_,
                     0 <= $i * (size_ - 1), $i * (size_ - 1) + (size_ - 1) <= size_ * (size_ - 1),
                     $et.pos == $i * (size_ - 1) + $j - (if $j > $i { 1int } else { 0 }), $ky.pos == $i + (if $j > $i { 1int } else { 0 }), $ih.point == mu_nu,
                     $ih.val() == hf(Seq::new($j as nat, |q: int| term(size_ as nat, e_, k_, $i as nat, q as nat)), mu_nu.v()),""",
                     start="""proof {
                         let s = Seq::new(($j + 1) as nat, |q: int| term(size_ as nat, e_, k_, $i as nat, q as nat));
                         assert(s.drop_last() =~= Seq::new($j as nat, |q: int| term(size_ as nat, e_, k_, $i as nat, q as nat)));
                     }""")]),
    dict(name="ClaimFolder::fold_inner", fn="fold_inner", file=FILE, within=r"impl<'dr, D: Driver<'dr>> ClaimFolder<'dr, D>", title="the folded claim of a first-layer group",
         sig="impl ClaimFolder { pub fn fold_inner(&self, dr: &mut Driver, error_terms: &Vec<El>, ky_values: &Vec<El>) -> (r: Res<El>)", rewrite=[GENERIC_PRODUCTS], context=IMPL, pre="proof { sizes(); }",
         spec="requires error_terms.len() == gs() * gs() - gs(), ky_values.len() == gs() ensures r.is_ok(), r.unwrap().v() == claim(gs(), values(error_terms@), values(ky_values@), self.mu_inv.v(), self.mu_nu.v()),", suffix="}"),
    dict(name="ClaimFolder::fold_outer", fn="fold_outer", file=FILE, within=r"impl<'dr, D: Driver<'dr>> ClaimFolder<'dr, D>", title="the folded claim of the groups",
         sig="impl ClaimFolder { pub fn fold_outer(&self, dr: &mut Driver, error_terms: &Vec<El>, ky_values: &Vec<El>) -> (r: Res<El>)", rewrite=[GENERIC_PRODUCTS], context=IMPL, pre="proof { sizes(); }",
         spec="requires error_terms.len() == ng() * ng() - ng(), ky_values.len() == ng() ensures r.is_ok(), r.unwrap().v() == claim(ng(), values(error_terms@), values(ky_values@), self.mu_inv.v(), self.mu_nu.v()),", suffix="}"),
    dict(name="Horner::new", fn="new", file=HORNER, title="nothing written yet", sig="impl<'a> Horner<'a> { pub fn new(point: &'a El) -> (r: Horner<'a>)", spec="ensures r.point == point, r.result is None,", suffix="}"),
    dict(name="Horner::write", fn="write", file=HORNER, within=r"impl<'a, 'dr, D: Driver<'dr>> Buffer<'dr, D> for Horner", title="times the point plus the value",
         sig="impl<'a> Horner<'a> { pub fn write(&mut self, dr: &mut Driver, value: &El) -> (r: Res<()>)",
         spec="ensures r.is_ok(), final(self).point == old(self).point, final(self).val() == fadd(fmul(old(self).val(), old(self).point.v()), value.v()),", pre="proof { zmul(self.point.v()); azero(value.v()); }", suffix="}"),
    dict(name="Horner::finish", fn="finish", file=HORNER, title="the value written, zero if nothing was", sig="impl<'a> Horner<'a> { pub fn finish(self, dr: &mut Driver) -> (r: El)", spec="ensures r.v() == self.val(),", suffix="}", rewrite=[OR_ELSE]),
    dict(name="Horner::finish_ky", fn="finish_ky", file=HORNER, title="one more coefficient, a one", sig="impl<'a> Horner<'a> { pub fn finish_ky(self, dr: &mut Driver) -> (r: Res<El>)", context=BUFFER + ELWRITE,
         spec="ensures r.is_ok(), r.unwrap().v() == fadd(fmul(self.val(), self.point.v()), fone()),", pre="let mut self_ = self;", rewrite=[(r"\bself\b", "self_", "a `mut self` parameter becomes a local"), (r"\bElement::", "El::", "the element")], suffix="}"),
    dict(name="Element::fold", fn="fold", file=ELEMENT, title="Horner's rule, for any number of elements", sig="impl El { pub fn fold(dr: &mut Driver, elements: Vec<&El>, scale_factor: &El) -> (r: Res<El>)",
         spec="ensures r.is_ok(), r.unwrap().v() == hf(vals(elements@), scale_factor.v()),", suffix="}", transform=[TRYFOLD],
         rewrite=[(r"elements\.into_iter\(\)", "Refs::new(elements)", "an iterator over references"), (r"\.borrow\(\)", "", "Borrow"), (r"\bElement::", "El::", "the element")],
         names={"acc": r"try_fold\(.*?\|(\w+), \w+\|", "first": r"let Some\((\w+)\)"},
         loops=[dict(inv="invariant elements@.len() >= 1, it0.seq() == elements@.skip(1), $acc.v() == hf(vals(elements@.take(it0.index() + 1)), scale_factor.v()),",
                     before="proof { let v = vals(elements@.take(1)); assert(v.drop_last() =~= Seq::<F>::empty()); assert(v.last() == elements@[0].v()); assert(hf(v.drop_last(), scale_factor.v()) == fzero()); zmul(scale_factor.v()); azero(elements@[0].v()); }",
                     start="proof { let k = it0.index() + 1; let v = vals(elements@.take(k + 1)); assert(v.drop_last() =~= vals(elements@.take(k))); assert(v.last() == elements@[k].v()); }",
                     after="proof { assert(elements@.take(elements@.len() as int) =~= elements@); }")]),
    dict(name="fold_two_layer", file=FILE, title="the same two-layer fold, in circuit", sig="pub fn fold_two_layer(dr: &mut Driver, sources: &[El], layer1_scale: &El, layer2_scale: &El) -> (r: Res<El>)",
         spec="requires sources.len() <= gs() * ng() ensures r.is_ok(), r.unwrap().v() == hf(fgroups(values(sources@), gs(), ng(), layer1_scale.v()), layer2_scale.v()),",
         transform=[CHAINS], context=ELFOLD, pre="proof { sizes(); }",
         rewrite=LENS + [(r"alloc::vec::Vec::with_capacity\([^;]*\);", "Vec::<El>::new();", "the capacity of a new vector"), (r"(\w+)\s*\.chunks\(", r"chunks(\1, ", "slice::chunks"), (r"\bElement::", "El::", "the element"),
                         (r"results\.iter\(\)", "refs(results.as_slice())", "borrowed items"), (r"\bchunk\.iter\(\)", "refs(chunk)", "borrowed items")],
         names={"m": r"let (\w+) = P::\w+::len\(\)", "res": r"let mut (\w+) = alloc", "zero": r"let (\w+) = Element::zero", "chunk": r"for (\w+) in"},
         loops=[dict(inv="""invariant $m == gs(), $m >= 1, gs() * ng() <= usize::MAX, sources.len() <= gs() * ng(), $zero.v() == fzero(), it0.seq().len() * $m >= sources.len(), it0.seq().len() > 0 ==> (it0.seq().len() - 1) * $m < sources.len(), $res.len() == it0.index(), it0.index() <= it0.seq().len(),
                     forall|g: int| 0 <= g < it0.seq().len() ==> (#[trigger] it0.seq()[g])@ == sources@.subrange(g * $m, if (g + 1) * $m <= sources.len() { (g + 1) * $m } else { sources.len() as int }),
                     forall|g: int| 0 <= g < $res.len() ==> (#[trigger] $res[g]).v() == hf(fgroup(values(sources@), gs(), g as nat), layer1_scale.v()),""",
                     start="""let ghost g_ = it0.index() as int; let ghost n_ = it0.seq().len() as int;
                         proof {
                             assert(0 <= g_ * $m) by (nonlinear_arith) requires g_ >= 0, $m >= 1;
                             assert((g_ + 1) * $m == g_ * $m + $m) by (nonlinear_arith);
                             assert(g_ * $m <= (n_ - 1) * $m) by (nonlinear_arith) requires g_ <= n_ - 1, $m >= 1;
                             assert forall|w: Seq<&El>| #[trigger] w.len() == $m && (forall|k: int| 0 <= k < $m ==> (#[trigger] w[k]).v() == (if k < $chunk.len() { $chunk[k].v() } else { fzero() })) implies vals(w) == fgroup(values(sources@), gs(), g_ as nat) by {
                                 assert(vals(w) =~= fgroup(values(sources@), gs(), g_ as nat));
                             }
                         }""",
                     after="""proof {
                         let n = $res.len() as int;
                         assert(n <= ng()) by (nonlinear_arith) requires n > 0 ==> (n - 1) * gs() < gs() * ng(), gs() >= 1;
                         assert forall|g: int| n <= g < ng() implies hf(#[trigger] fgroup(values(sources@), gs(), g as nat), layer1_scale.v()) == fzero() by {
                             assert(g * gs() >= n * gs()) by (nonlinear_arith) requires g >= n, gs() >= 1;
                             hf_zeros(fgroup(values(sources@), gs(), g as nat), layer1_scale.v());
                         }
                     }"""),
                dict(inv="""invariant $zero.v() == fzero(), $res.len() <= ng(), forall|g: int| 0 <= g < $res.len() ==> (#[trigger] $res[g]).v() == hf(fgroup(values(sources@), gs(), g as nat), layer1_scale.v()),
                     forall|g: int| $res.len() <= g < ng() ==> hf(#[trigger] fgroup(values(sources@), gs(), g as nat), layer1_scale.v()) == fzero(),
                     decreases ng() - $res.len(),""",
                     start="proof { let z = fgroup(values(sources@), gs(), $res.len() as nat); }",
                     after="""proof {
                         assert forall|w: Seq<&El>| #[trigger] w.len() == ng() && (forall|k: int| 0 <= k < ng() ==> *(#[trigger] w[k]) == $res[k]) implies vals(w) == fgroups(values(sources@), gs(), ng(), layer1_scale.v()) by {
                             assert(vals(w) =~= fgroups(values(sources@), gs(), ng(), layer1_scale.v()));
                         }
                     }""")]),
]
