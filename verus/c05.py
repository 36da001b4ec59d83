"""C05, unbounded: the FFT of every size on every ring, its inverse, and the Lagrange weights of every domain."""
import re

from field import prelude
from verus import ASSERTS, Lost, close, mask

FFT = "crates/ragu_arithmetic/src/fft.rs"
DOMAIN = "crates/ragu_arithmetic/src/domain.rs"

ASSUME = [
    "bitreverse(k, l) is the recursion `rev` for k < 2^l, l <= 32 (discharged by Kani, c05_bitreverse_recursion)",
    "implementations of `Ring` are modules over the scalar field (FFTField is proved to be one from the field laws; the polynomial ring of the registry is covered by C11)",
    "F::ROOT_OF_UNITY is a primitive 2^S-th root of unity, ROOT_OF_UNITY_INV and TWO_INV are the inverses of it and of two, S <= 32 (the contract of ff::PrimeField; C21 checks the constants)",
    "multicore::join runs both closures (they borrow disjoint halves); ff::BatchInverter replaces non-zero elements by their inverses; `pow` is exponentiation",
]

MODULE = """
pub mod md {
use vstd::prelude::*;
use super::fl::*;
use super::fl::law::*;
/// elements of a module over the field: what a `Ring` implementation provides
#[verifier::external_body] pub struct E { x: Vec<u64> }
pub uninterp spec fn ea(a: E, b: E) -> E;
pub uninterp spec fn eneg(a: E) -> E;
pub uninterp spec fn ez() -> E;
pub uninterp spec fn sc(a: E, w: F) -> E;
pub open spec fn es(a: E, b: E) -> E { ea(a, eneg(b)) }
pub axiom fn e_comm(a: E, b: E) ensures ea(a, b) == ea(b, a);
pub axiom fn e_assoc(a: E, b: E, c: E) ensures ea(ea(a, b), c) == ea(a, ea(b, c));
pub axiom fn e_zero(a: E) ensures ea(a, ez()) == a;
pub axiom fn e_neg(a: E) ensures ea(a, eneg(a)) == ez();
pub axiom fn sc_dist(a: E, b: E, w: F) ensures sc(ea(a, b), w) == ea(sc(a, w), sc(b, w));
pub axiom fn sc_add(a: E, v: F, w: F) ensures sc(a, fadd(v, w)) == ea(sc(a, v), sc(a, w));
pub axiom fn sc_mul(a: E, v: F, w: F) ensures sc(sc(a, v), w) == sc(a, fmul(v, w));
pub axiom fn sc_one(a: E) ensures sc(a, fone()) == a;
pub proof fn zero_e(a: E) ensures ea(ez(), a) == a { e_comm(a, ez()); e_zero(a); }
pub proof fn e_cancel(a: E, b: E) requires ea(a, b) == ez() ensures b == eneg(a) {
    // b = -a + (a + b) = -a
    e_neg(a); e_comm(a, eneg(a)); e_assoc(eneg(a), a, b); zero_e(b); e_zero(eneg(a));
}
pub proof fn e_idem(a: E) requires ea(a, a) == a ensures a == ez() {
    e_neg(a); e_assoc(a, a, eneg(a)); e_zero(a);
}
pub proof fn sc_ez(w: F) ensures sc(ez(), w) == ez() { sc_dist(ez(), ez(), w); e_zero(ez()); e_idem(sc(ez(), w)); }
pub proof fn sc_zero(a: E) ensures sc(a, fzero()) == ez() { sc_add(a, fzero(), fzero()); add_zero(fzero()); e_idem(sc(a, fzero())); }
pub proof fn sc_neg(a: E, w: F) ensures sc(a, fneg(w)) == eneg(sc(a, w)) { add_neg(w); sc_add(a, w, fneg(w)); sc_zero(a); e_cancel(sc(a, w), sc(a, fneg(w))); }
pub proof fn neg_sc(a: E, w: F) ensures sc(eneg(a), w) == eneg(sc(a, w)) { e_neg(a); sc_dist(a, eneg(a), w); sc_ez(w); e_cancel(sc(a, w), sc(eneg(a), w)); }
pub proof fn ea4(a: E, b: E, c: E, d: E) ensures ea(ea(a, b), ea(c, d)) == ea(ea(a, c), ea(b, d)) {
    e_assoc(a, b, ea(c, d)); e_assoc(b, c, d); e_comm(b, c); e_assoc(c, b, d); e_assoc(a, c, ea(b, d));
}
pub proof fn neg_ea(a: E, b: E) ensures eneg(ea(a, b)) == ea(eneg(a), eneg(b)) {
    ea4(a, b, eneg(a), eneg(b)); e_neg(a); e_neg(b); e_zero(ez()); e_cancel(ea(a, b), ea(eneg(a), eneg(b)));
}
pub proof fn neg_e_neg(a: E) ensures eneg(eneg(a)) == a { e_neg(a); e_comm(a, eneg(a)); e_cancel(eneg(a), a); }
/// (a + b) + (a - b) = a + a and (a + b) - (a - b) = b + b
pub proof fn sum_diff(a: E, b: E) ensures ea(ea(a, b), es(a, b)) == ea(a, a), es(ea(a, b), es(a, b)) == ea(b, b) {
    ea4(a, b, a, eneg(b)); e_neg(b); e_zero(ea(a, a));
    neg_ea(a, eneg(b)); neg_e_neg(b);
    ea4(a, b, eneg(a), b); e_neg(a); zero_e(ea(b, b));
}
pub struct R {}
impl R {
    #[verifier::external_body] pub fn scale_assign(r: &mut E, by: F) ensures *final(r) == sc(*old(r), by) { loop{} }
    #[verifier::external_body] pub fn add_assign(r: &mut E, other: &E) ensures *final(r) == ea(*old(r), *other) { loop{} }
    #[verifier::external_body] pub fn sub_assign(r: &mut E, other: &E) ensures *final(r) == es(*old(r), *other) { loop{} }
}
impl Clone for E { #[verifier::external_body] fn clone(&self) -> (r: E) ensures r == *self { loop{} } }
}
"""

THEORY = """
use super::md::*;
global size_of usize == 8;
pub open spec fn p2(l: nat) -> nat decreases l { if l == 0 { 1 } else { 2 * p2((l - 1) as nat) } }
pub proof fn p2_pos(l: nat) ensures p2(l) >= 1 decreases l { if l > 0 { p2_pos((l - 1) as nat); } }
pub proof fn p2_less(a: nat, b: nat) requires a < b ensures p2(a) < p2(b), 2 * p2(a) <= p2(b) decreases b { p2_pos((b - 1) as nat); if a < b - 1 { p2_less(a, (b - 1) as nat); } }
pub proof fn p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases b {
    if b > 0 { p2_add(a, (b - 1) as nat); let (x, y) = (p2(a), p2((b - 1) as nat)); assert(x * (2 * y) == 2 * (x * y)) by (nonlinear_arith); assert((a + b - 1) as nat == a + ((b - 1) as nat)); assert(p2(b) == 2 * y); assert(p2(a + b) == 2 * p2((a + b - 1) as nat)); }
    else { assert(p2(a) * 1 == p2(a)); }
}
pub proof fn shl_p2(l: u32) requires l < 64 ensures 1usize << l == p2(l as nat) decreases l {
    if l == 0 { assert(1usize << 0u32 == 1) by (bit_vector); } else {
        shl_p2((l - 1) as u32);
        let k = (l - 1) as u32;
        assert(1usize << (k + 1) as u32 == 2 * (1usize << k)) by (bit_vector) requires k < 63;
    }
}
pub proof fn p2_32(l: nat) requires l <= 32 ensures p2(l) <= 0x1_0000_0000 {
    if l < 32 { p2_less(l, 32); }
    assert(p2(32) == 0x1_0000_0000) by (compute);
}
/// reversal of the lowest l bits
pub open spec fn rev(k: nat, l: nat) -> nat decreases l { if l == 0 { 0 } else if k < p2((l - 1) as nat) { 2 * rev(k, (l - 1) as nat) } else { 2 * rev((k - p2((l - 1) as nat)) as nat, (l - 1) as nat) + 1 } }
pub proof fn rev_less(k: nat, l: nat) requires k < p2(l) ensures rev(k, l) < p2(l) decreases l {
    if l > 0 { let h = p2((l - 1) as nat); if k < h { rev_less(k, (l - 1) as nat); } else { rev_less((k - h) as nat, (l - 1) as nat); } }
}
/// rev in terms of the lowest bit
pub proof fn rev_low(k: nat, l: nat) requires l > 0, k < p2(l) ensures rev(k, l) == rev(k / 2, (l - 1) as nat) + (k % 2) * p2((l - 1) as nat) decreases l {
    if l == 1 { reveal_with_fuel(rev, 2); reveal_with_fuel(p2, 2); assert(p2(0) == 1); assert(rev(k / 2, 0) == 0); assert((k % 2) * 1 == k % 2); if k == 0 { assert(rev(0, 1) == 0); } else { assert(k == 1); assert(rev(1, 1) == 1); } } else {
        let h = p2((l - 1) as nat); let g = p2((l - 2) as nat);
        assert(h == 2 * g);
        if k < h { rev_low(k, (l - 1) as nat); assert(k / 2 < g); } else {
            let m = (k - h) as nat;
            rev_low(m, (l - 1) as nat); assert(k / 2 == m / 2 + g); assert(m % 2 == k % 2); assert((m / 2) < g);
        }
        assert((k % 2) * h == 2 * ((k % 2) * g)) by (nonlinear_arith) requires h == 2 * g;
    }
}
pub proof fn rev_rev(k: nat, l: nat) requires k < p2(l) ensures rev(rev(k, l), l) == k decreases l {
    if l > 0 {
        let h = p2((l - 1) as nat); let i = (l - 1) as nat;
        rev_less(k, l);
        rev_low(rev(k, l), l);
        if k < h { rev_rev(k, i); rev_less(k, i); assert(rev(k, l) / 2 == rev(k, i)); assert(rev(k, l) % 2 == 0); assert(0 * h == 0); }
        else { let m = (k - h) as nat; rev_rev(m, i); rev_less(m, i); assert(rev(k, l) / 2 == rev(m, i)); assert(rev(k, l) % 2 == 1); assert(1 * h == h); }
    }
}
pub open spec fn reversed(s: Seq<E>, l: nat) -> Seq<E> { Seq::new(s.len(), |k: int| s[rev(k as nat, l) as int]) }
/// sum of s[i] x^i
pub open spec fn ev(s: Seq<E>, x: F) -> E decreases s.len() { if s.len() == 0 { ez() } else { ea(ev(s.drop_last(), x), sc(s.last(), fpow(x, (s.len() - 1) as nat))) } }
pub open spec fn dft(s: Seq<E>, w: F) -> Seq<E> { Seq::new(s.len(), |k: int| ev(s, fpow(w, k as nat))) }
pub open spec fn evens(s: Seq<E>) -> Seq<E> { Seq::new(s.len() / 2, |i: int| s[2 * i]) }
pub open spec fn odds(s: Seq<E>) -> Seq<E> { Seq::new(s.len() / 2, |i: int| s[2 * i + 1]) }
pub open spec fn sq(x: F) -> F { fmul(x, x) }
pub proof fn mone(a: F) ensures fmul(fone(), a) == a { mul_comm(a, fone()); mul_one(a); }
pub proof fn azero(a: F) ensures fadd(fzero(), a) == a { add_comm(a, fzero()); add_zero(a); }
pub proof fn mul4(a: F, b: F, c: F, d: F) ensures fmul(fmul(a, b), fmul(c, d)) == fmul(fmul(a, c), fmul(b, d)) {
    mul_assoc(a, b, fmul(c, d)); mul_assoc(b, c, d); mul_comm(b, c); mul_assoc(c, b, d); mul_assoc(a, c, fmul(b, d));
}
pub proof fn pow_mul(a: F, b: F, n: nat) ensures fpow(fmul(a, b), n) == fmul(fpow(a, n), fpow(b, n)) decreases n {
    if n == 0 { mul_one(fone()); } else { pow_mul(a, b, (n - 1) as nat); mul4(fpow(a, (n - 1) as nat), fpow(b, (n - 1) as nat), a, b); }
}
pub proof fn pow1(a: F) ensures fpow(a, 1) == a { reveal_with_fuel(fpow, 2); mone(a); }
pub proof fn pow_sq(a: F, n: nat) ensures fpow(sq(a), n) == fpow(a, 2 * n), fpow(sq(a), n) == sq(fpow(a, n)) { pow_mul(a, a, n); pow_add(a, n, n); }
pub proof fn pow_pow(a: F, m: nat, n: nat) ensures fpow(fpow(a, m), n) == fpow(a, m * n) decreases n {
    if n == 0 { assert(m * n == 0) by (nonlinear_arith) requires n == 0; } else { pow_pow(a, m, (n - 1) as nat); pow_add(a, m * ((n - 1) as nat), m); assert(m * ((n - 1) as nat) + m == m * n) by (nonlinear_arith) requires n >= 1; }
}
pub proof fn one_pow(n: nat) ensures fpow(fone(), n) == fone() decreases n { if n > 0 { one_pow((n - 1) as nat); mul_one(fone()); } }
pub proof fn neg_sq(a: F) ensures sq(fneg(a)) == sq(a) { neg_mul(fneg(a), a); mul_comm(fneg(a), a); neg_mul(a, a); neg_neg(fmul(a, a)); }
pub proof fn mneg_one(a: F) ensures fmul(a, fneg(fone())) == fneg(a) { neg_mul(a, fone()); mul_one(a); }
/// w generates a domain of 2^l points: w^(2^(l-1)) = -1 (and w = 1 if l = 0)
pub open spec fn root(w: F, l: nat) -> bool { if l == 0 { w == fone() } else { fpow(w, p2((l - 1) as nat)) == fneg(fone()) } }
pub proof fn root_sq(w: F, l: nat) requires l > 0, root(w, l) ensures root(sq(w), (l - 1) as nat) {
    if l == 1 { pow1(w); neg_sq(fone()); mul_one(fone()); } else { pow_sq(w, p2((l - 2) as nat)); }
}
pub proof fn root_one(w: F, l: nat) requires root(w, l) ensures fpow(w, p2(l)) == fone() {
    if l == 0 { pow1(w); } else { let h = p2((l - 1) as nat); pow_add(w, h, h); neg_sq(fone()); mul_one(fone()); }
}
pub proof fn root_half(w: F, l: nat, k: nat) requires l > 0, root(w, l) ensures fpow(w, k + p2((l - 1) as nat)) == fneg(fpow(w, k)) { pow_add(w, k, p2((l - 1) as nat)); mneg_one(fpow(w, k)); }

pub proof fn ev_split(a: Seq<E>, b: Seq<E>, x: F) ensures ev(a + b, x) == ea(ev(a, x), sc(ev(b, x), fpow(x, a.len()))) decreases b.len() {
    let p = fpow(x, a.len());
    if b.len() == 0 { sc_ez(p); e_zero(ev(a, x)); assert(a + b =~= a); } else {
        ev_split(a, b.drop_last(), x);
        let k = (b.len() - 1) as nat;
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        pow_add(x, a.len(), k);
        assert((a + b).len() - 1 == a.len() + k);
        mul_comm(p, fpow(x, k)); sc_mul(b.last(), fpow(x, k), p);
        sc_dist(ev(b.drop_last(), x), sc(b.last(), fpow(x, k)), p);
        e_assoc(ev(a, x), sc(ev(b.drop_last(), x), p), sc(sc(b.last(), fpow(x, k)), p));
    }
}
pub proof fn ev_halves(s: Seq<E>, x: F) requires s.len() % 2 == 0 ensures ev(s, x) == ea(ev(evens(s), sq(x)), sc(ev(odds(s), sq(x)), x)) decreases s.len() {
    if s.len() == 0 { sc_ez(x); e_zero(ez()); } else {
        let m = (s.len() / 2 - 1) as nat; let t = s.take(s.len() - 2); let y = sq(x);
        ev_halves(t, x);
        assert(evens(t) =~= evens(s).drop_last()); assert(odds(t) =~= odds(s).drop_last());
        let (a, b) = (s[s.len() - 2], s[s.len() - 1]);
        assert(evens(s).last() == a && odds(s).last() == b);
        assert(s.drop_last().drop_last() =~= t);
        pow_sq(x, m);
        let p = fpow(y, m);
        assert(fpow(x, (s.len() - 2) as nat) == p);
        assert(fpow(x, (s.len() - 1) as nat) == fmul(p, x));
        sc_mul(b, p, x);
        // ((E + O x) + a p) + (b p) x = (E + a p) + (O + b p) x
        let (e, o) = (ev(evens(t), y), ev(odds(t), y));
        assert(ev(s.drop_last(), x) == ea(ev(t, x), sc(a, p)));
        sc_dist(o, sc(b, p), x);
        e_assoc(ea(e, sc(o, x)), sc(a, p), sc(sc(b, p), x));
        ea4(e, sc(o, x), sc(a, p), sc(sc(b, p), x));
    }
}
pub open spec fn plus(a: Seq<E>, b: Seq<E>) -> Seq<E> { Seq::new(a.len(), |i: int| ea(a[i], b[i])) }
pub open spec fn scaled(a: Seq<E>, w: F) -> Seq<E> { Seq::new(a.len(), |i: int| sc(a[i], w)) }
pub open spec fn twisted(a: Seq<E>, w: F) -> Seq<E> { Seq::new(a.len(), |i: int| sc(a[i], fpow(w, i as nat))) }
pub proof fn ev_plus(a: Seq<E>, b: Seq<E>, x: F) requires a.len() == b.len() ensures ev(plus(a, b), x) == ea(ev(a, x), ev(b, x)) decreases a.len() {
    if a.len() == 0 { e_zero(ez()); } else {
        ev_plus(a.drop_last(), b.drop_last(), x);
        let p = fpow(x, (a.len() - 1) as nat);
        assert(plus(a, b).drop_last() =~= plus(a.drop_last(), b.drop_last()));
        sc_dist(a.last(), b.last(), p);
        ea4(ev(a.drop_last(), x), ev(b.drop_last(), x), sc(a.last(), p), sc(b.last(), p));
    }
}
pub proof fn ev_scaled(a: Seq<E>, w: F, x: F) ensures ev(scaled(a, w), x) == sc(ev(a, x), w) decreases a.len() {
    if a.len() == 0 { sc_ez(w); } else {
        ev_scaled(a.drop_last(), w, x);
        let p = fpow(x, (a.len() - 1) as nat);
        assert(scaled(a, w).drop_last() =~= scaled(a.drop_last(), w));
        sc_mul(a.last(), w, p); mul_comm(w, p); sc_mul(a.last(), p, w);
        sc_dist(ev(a.drop_last(), x), sc(a.last(), p), w);
    }
}
pub proof fn ev_twisted(a: Seq<E>, w: F, x: F) ensures ev(twisted(a, w), x) == ev(a, fmul(x, w)) decreases a.len() {
    if a.len() > 0 {
        ev_twisted(a.drop_last(), w, x);
        let k = (a.len() - 1) as nat;
        assert(twisted(a, w).drop_last() =~= twisted(a.drop_last(), w));
        sc_mul(a.last(), fpow(w, k), fpow(x, k)); mul_comm(fpow(w, k), fpow(x, k)); pow_mul(x, w, k);
    }
}
/// what one round of butterflies makes of the transforms of the two halves
pub open spec fn joined(l: Seq<E>, r: Seq<E>, w: F) -> Seq<E> {
    Seq::new(2 * l.len(), |k: int| if k < l.len() { ea(l[k], sc(r[k], fpow(w, k as nat))) } else { es(l[k - l.len()], sc(r[k - l.len()], fpow(w, (k - l.len()) as nat))) })
}
pub open spec fn but(a: Seq<E>, w: F, l: nat) -> Seq<E> decreases l {
    if l == 0 { a } else { let h = p2((l - 1) as nat) as int; joined(but(a.take(h), sq(w), (l - 1) as nat), but(a.skip(h), sq(w), (l - 1) as nat), w) }
}
pub proof fn but_len(a: Seq<E>, w: F, l: nat) requires a.len() == p2(l) ensures but(a, w, l).len() == a.len() decreases l {
    if l > 0 { let h = p2((l - 1) as nat) as int; but_len(a.take(h), sq(w), (l - 1) as nat); but_len(a.skip(h), sq(w), (l - 1) as nat); }
}
pub proof fn joined_is_dft(s: Seq<E>, w: F, l: nat) requires l > 0, s.len() == p2(l), root(w, l) ensures joined(dft(evens(s), sq(w)), dft(odds(s), sq(w)), w) == dft(s, w) {
    let h = p2((l - 1) as nat);
    let j = joined(dft(evens(s), sq(w)), dft(odds(s), sq(w)), w);
    assert forall|k: int| 0 <= k < 2 * h implies #[trigger] j[k] == dft(s, w)[k] by {
        let i = (if k < h { k } else { k - h }) as nat;
        let x = fpow(w, i);
        pow_sq(w, i);
        ev_halves(s, fpow(w, k as nat));
        if k >= h { root_half(w, l, i); neg_sq(x); sc_neg(ev(odds(s), sq(x)), x); }
    }
    assert(j =~= dft(s, w));
}
/// butterflies on the bit-reversed input are the transform
pub proof fn but_is_dft(s: Seq<E>, w: F, l: nat) requires s.len() == p2(l), root(w, l) ensures but(reversed(s, l), w, l) == dft(s, w) decreases l {
    if l == 0 {
        assert forall|k: int| 0 <= k < 1 implies #[trigger] reversed(s, l)[k] == dft(s, w)[k] by {
            reveal_with_fuel(ev, 2); zero_e(s[0]); sc_one(s[0]); assert(s.drop_last().len() == 0);
            assert(ev(s, fpow(w, 0)) == ea(ez(), sc(s[0], fone())));
        }
        assert(reversed(s, l) =~= dft(s, w));
    } else {
        let i = (l - 1) as nat; let h = p2(i) as int; let a = reversed(s, l);
        root_sq(w, l);
        but_is_dft(evens(s), sq(w), i); but_is_dft(odds(s), sq(w), i);
        assert forall|k: int| 0 <= k < h implies #[trigger] a.take(h)[k] == reversed(evens(s), i)[k] by { rev_less(k as nat, i); }
        assert forall|k: int| 0 <= k < h implies #[trigger] a.skip(h)[k] == reversed(odds(s), i)[k] by { rev_less(k as nat, i); }
        assert(a.take(h) =~= reversed(evens(s), i)); assert(a.skip(h) =~= reversed(odds(s), i));
        joined_is_dft(s, w, l);
    }
}
/// 2^l as an element of the field
pub open spec fn f2(l: nat) -> F decreases l { if l == 0 { fone() } else { fadd(f2((l - 1) as nat), f2((l - 1) as nat)) } }
pub proof fn transform_back(s: Seq<E>, w: F, v: F, l: nat)
    requires s.len() == p2(l), root(w, l), fmul(w, v) == fone()
    ensures dft(dft(s, w), v) == scaled(s, f2(l)), root(v, l)
    decreases l
{
    let d = dft(s, w); let dd = dft(d, v);
    if l == 0 {
        mone(v);
        assert forall|k: int| 0 <= k < 1 implies #[trigger] dd[k] == scaled(s, f2(l))[k] by {
            reveal_with_fuel(ev, 2); assert(s.drop_last().len() == 0 && d.drop_last().len() == 0);
            assert(ev(s, fpow(w, 0)) == ea(ez(), sc(s[0], fone())));
            assert(ev(d, fpow(v, 0)) == ea(ez(), sc(d[0], fone())));
            zero_e(s[0]); sc_one(s[0]);
        }
        assert(dd =~= scaled(s, f2(l)));
    } else {
        let i = (l - 1) as nat; let h = p2(i) as int; let w2 = sq(w); let v2 = sq(v);
        let (lo, hi) = (s.take(h), s.skip(h));
        assert(s =~= lo + hi);
        let m = fneg(fone());
        let dif = plus(lo, scaled(hi, m));
        let (u0, u1) = (plus(lo, hi), twisted(dif, w));
        mul4(w, w, v, v); mul_one(fone()); root_sq(w, l);
        transform_back(u0, w2, v2, i); transform_back(u1, w2, v2, i);
        // root(v, l): v^h w^h = 1 and w^h = -1
        pow_mul(w, v, h as nat); one_pow(h as nat);
        let vh = fpow(v, h as nat);
        mul_comm(m, vh); mneg_one(vh); neg_neg(vh);
        assert(root(v, l));
        assert forall|k: int| 0 <= k < h implies #[trigger] evens(d)[k] == dft(u0, w2)[k] by {
            let x = fpow(w, (2 * k) as nat);
            pow_sq(w, k as nat);
            ev_split(lo, hi, x); ev_plus(lo, hi, x);
            // x^h = (w^n)^k = 1
            pow_pow(w, (2 * k) as nat, h as nat); root_one(w, l); pow_pow(w, p2(l), k as nat); one_pow(k as nat);
            assert((2 * k) * h == p2(l) * k) by (nonlinear_arith) requires p2(l) == 2 * h;
            sc_one(ev(hi, x));
        }
        assert(evens(d) =~= dft(u0, w2));
        assert forall|k: int| 0 <= k < h implies #[trigger] odds(d)[k] == dft(u1, w2)[k] by {
            let x = fpow(w, (2 * k + 1) as nat); let y = fpow(w, (2 * k) as nat);
            pow_sq(w, k as nat);
            assert(x == fmul(y, w));
            ev_twisted(dif, w, y);
            ev_split(lo, hi, x); ev_plus(lo, scaled(hi, m), x); ev_scaled(hi, m, x);
            pow_pow(w, (2 * k) as nat, h as nat); root_one(w, l); pow_pow(w, p2(l), k as nat); one_pow(k as nat);
            assert((2 * k) * h == p2(l) * k) by (nonlinear_arith) requires p2(l) == 2 * h;
            pow_mul(y, w, h as nat); mone(m);
        }
        assert(odds(d) =~= dft(u1, w2));
        joined_is_dft(d, v, l);
        let g = f2(i);
        assert forall|k: int| 0 <= k < 2 * h implies #[trigger] dd[k] == scaled(s, f2(l))[k] by {
            let j = if k < h { k } else { k - h };
            let (a, b) = (lo[j], hi[j]);
            sc_neg(b, fone()); sc_one(b);
            assert(dft(evens(d), v2)[j] == sc(ea(a, b), g));
            assert(dft(odds(d), v2)[j] == sc(u1[j], g));
            assert(u1[j] == sc(es(a, b), fpow(w, j as nat)));
            let (wj, vj) = (fpow(w, j as nat), fpow(v, j as nat));
            // ((a - b) w^j g) v^j = (a - b) g
            sc_mul(es(a, b), wj, g); sc_mul(es(a, b), fmul(wj, g), vj);
            mul_comm(wj, g); mul_assoc(g, wj, vj); pow_mul(w, v, j as nat); one_pow(j as nat); mul_one(g);
            assert(sc(dft(odds(d), v2)[j], vj) == sc(es(a, b), g));
            neg_sc(es(a, b), g);
            sum_diff(a, b);
            sc_dist(ea(a, b), es(a, b), g); sc_dist(ea(a, b), eneg(es(a, b)), g);
            sc_dist(a, a, g); sc_dist(b, b, g); sc_add(a, g, g); sc_add(b, g, g);
        }
        assert(dd =~= scaled(s, f2(l)));
    }
}
"""


def args(text, masked, i):
    """Top-level comma-separated parts of the bracket opening at i, and the index of its end."""
    c, parts, d, last = close(masked, i), [], 0, i + 1
    for k in range(i + 1, c):
        d += (masked[k] in "([{") - (masked[k] in ")]}")
        if masked[k] == "," and d == 0:
            parts.append(text[last:k])
            last = k + 1
    return [p.strip() for p in parts + [text[last:c]] if p.strip()], c


def block(x):
    """The statements of a closure body."""
    x = x.strip()
    return x[1:-1] if x.startswith("{") and close(mask(x), 0) == len(x) - 1 else x


def joins(body):
    while True:
        h = re.search(r"multicore::join\(", body)
        if not h:
            return body
        parts, c = args(body, mask(body), h.end() - 1)
        if len(parts) != 2 or not all(re.match(r"(move )?\|\|", p) for p in parts):
            raise Lost("join of something other than two closures")
        both = "; ".join(block(re.sub(r"^(move )?\|\|", "", p)) for p in parts)
        body = body[:h.start()] + "{ " + both + "; }" + body[c + 1:]


def pairs(body):
    """X.iter_mut().zip(Y.iter_mut()).enumerate().for_each(|(i, (a, b))| S) is the loop over the shorter length."""
    while True:
        h = re.search(r"(\w+)\s*\.iter_mut\(\)\s*\.zip\((\w+)\.iter_mut\(\)\)\s*\.enumerate\(\)\s*\.for_each\(", body)
        if not h:
            return body
        parts, c = args(body, mask(body), h.end() - 1)
        x = ",".join(parts)
        g = re.match(r"\|\((\w+), \((\w+), (\w+)\)\)\|(.*)$", x, re.S)
        if not g:
            raise Lost("for_each closure not recognised")
        body = (body[:h.start()] + f"let n__ = shorter({h[1]}.len(), {h[2]}.len()); for {g[1]} in 0..n__ {{ let {g[2]} = &mut {h[1]}[{g[1]}]; let {g[3]} = &mut {h[2]}[{g[1]}]; {block(g[4])} }}"
                + body[c + 1:].lstrip().removeprefix(";"))


def chunks(body):
    while True:
        h = re.search(r"(\w+)\s*\.chunks_mut\((\w+)\)\s*\.for_each\(", body)
        if not h:
            return body
        parts, c = args(body, mask(body), h.end() - 1)
        g = re.match(r"\|(\w+)\|(.*)$", ",".join(parts), re.S)
        if not g:
            raise Lost("for_each closure not recognised")
        body = (body[:h.start()] + f"let m__ = pieces({h[1]}.len(), {h[2]}); for q__ in 0..m__ {{ let {g[1]} = piece({h[1]}, q__, {h[2]}); {{ {block(g[2])} }} }}"
                + body[c + 1:].lstrip().removeprefix(";"))


def scans(body):
    """(range).scan(init, |s, _| { .. *s .. Some(x) }).collect() is the loop pushing each x."""
    while True:
        h = re.search(r"(?:\((0\.\.[^;]*?)\)|(\w+)\s*\.into_iter\(\))\s*\.scan\(", body)
        if not h:
            return body
        parts, c = args(body, mask(body), h.end() - 1)
        g = re.match(r"(?:move )?\|(\w+),\s*(\w+)\|(.*)$", ",".join(parts[1:]), re.S)
        t = re.match(r"\s*\.collect\(\)", body[c + 1:])
        if not g or not t:
            raise Lost("scan not recognised")
        b = re.sub(r"\*%s\b" % g[1], g[1], block(g[3]))
        b, n = re.subn(r"Some\((.*)\)\s*$", r"v__.push(\1);", b, flags=re.S)
        if n != 1:
            raise Lost("scan closure does not end in Some")
        body = (body[:h.start()] + f"{{ let mut v__: Vec<F> = Vec::new(); let mut {g[1]} = {parts[0].replace('R::F::', 'F::')}; for {'i__' if g[2] == '_' else g[2]} in {h[1] or h[2]} {{ {b} }} v__ }}"
                + body[c + 1 + t.end():])


CHUNKS = (chunks, "chunks_mut and for_each become the loop over the pieces")
SCAN = (scans, "scan and collect become the loop pushing each item")
JOIN = (joins, "multicore::join of two closures runs one after the other (they borrow disjoint halves)")
PAIRS = (pairs, "iter_mut, zip, enumerate and for_each become the indexed loop over both slices")
RING = (r"R::(add_assign|sub_assign|scale_assign)\(", r"R::\1(", "ring operations")
CTX = """
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
fn shorter(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/// the table of twiddle factors: w^i for i < n / 2
pub open spec fn powers(t: Seq<F>, w: F) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == fpow(w, i as nat) }
/// one butterfly of the pair (x, y) under the factor f
pub open spec fn fly(l0: Seq<E>, r0: Seq<E>, l: Seq<E>, r: Seq<E>, t: Seq<F>, c: int, i: int) -> bool {
    &&& l.len() == l0.len() && r.len() == r0.len()
    &&& forall|j: int| 0 <= j < i ==> #[trigger] l[j] == ea(l0[j], sc(r0[j], t[(j + 1) * c]))
    &&& forall|j: int| 0 <= j < i ==> #[trigger] r[j] == es(l0[j], sc(r0[j], t[(j + 1) * c]))
    &&& forall|j: int| i <= j < l.len() ==> #[trigger] l[j] == l0[j]
    &&& forall|j: int| i <= j < r.len() ==> #[trigger] r[j] == r0[j]
}
"""
STAGES = """
#[verifier::external_body] fn swap(a: &mut [E], i: usize, j: usize) requires i < old(a).len(), j < old(a).len() ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int]) { a.swap(i, j) }
#[verifier::external_body] fn bitreverse(k: u32, l: u32) -> (r: u32) requires l <= 32, k < p2(l as nat) ensures r == rev(k as nat, l as nat) { unimplemented!() }
pub mod multicore { use vstd::prelude::*; #[verifier::external_body] pub fn current_num_threads() -> usize { unimplemented!() } }
#[verifier::external_body] fn log2_floor(n: usize) -> u32 { unimplemented!() }
/// number of pieces of chunks_mut, the last of which may be shorter
fn pieces(n: usize, c: usize) -> (r: usize) requires c > 0, n + c <= usize::MAX ensures r == (n + c - 1) / (c as int) { (n + c - 1) / c }
#[verifier::external_body] fn piece<'a>(a: &'a mut [E], q: usize, c: usize) -> (r: &'a mut [E])
    requires (q + 1) * c <= old(a).len()
    ensures r@ == old(a)@.subrange(q * c, (q + 1) * c), final(a)@ == old(a)@.take(q * c) + final(r)@ + old(a)@.skip((q + 1) * c), final(r)@.len() == c
{ &mut a[q * c..(q + 1) * c] }
/// contract of recursive_butterfly_arithmetic, proved on its own
#[verifier::external_body] fn recursive_butterfly_arithmetic(a: &mut [E], n: usize, twiddle_chunk: usize, twiddles: &[F], w_: Ghost<F>, l_: Ghost<nat>)
    requires n == p2(l_@), l_@ >= 1, l_@ < 63, old(a).len() == n, powers(twiddles@, w_@), twiddle_chunk >= 1, twiddle_chunk * p2((l_@ - 1) as nat) == twiddles.len(),
    ensures final(a)@ == but(old(a)@, fpow(w_@, twiddle_chunk as nat), l_@), final(a)@.len() == n { unimplemented!() }
pub open spec fn blk(a: Seq<E>, q: int, c: int) -> Seq<E> { a.subrange(q * c, (q + 1) * c) }
/// every block of 2^st is transformed
pub open spec fn staged(a: Seq<E>, a1: Seq<E>, w: F, l: nat, st: nat) -> bool {
    forall|q: int| 0 <= q < p2((l - st) as nat) ==> #[trigger] blk(a, q, p2(st) as int) == but(blk(a1, q, p2(st) as int), fpow(w, p2((l - st) as nat)), st)
}
pub open spec fn half_staged(a: Seq<E>, b: Seq<E>, a1: Seq<E>, w: F, l: nat, st: nat, m: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|q: int| 0 <= q < m ==> #[trigger] blk(a, q, p2(st + 1) as int) == but(blk(a1, q, p2(st + 1) as int), fpow(w, p2((l - st - 1) as nat)), st + 1)
    &&& forall|k: int| m * p2(st + 1) <= k < a.len() ==> #[trigger] a[k] == b[k]
}
pub proof fn staged_start(a: Seq<E>, w: F, l: nat) requires a.len() == p2(l) ensures staged(a, a, w, l, 0) { }
pub proof fn inside(q: int, m: int, c: int) requires 0 <= q < m, c >= 1 ensures 0 <= q * c, (q + 1) * c == q * c + c, (q + 1) * c <= m * c {
    assert(0 <= q * c) by (nonlinear_arith) requires 0 <= q, c >= 1; assert((q + 1) * c == q * c + c) by (nonlinear_arith); assert((q + 1) * c <= m * c) by (nonlinear_arith) requires q + 1 <= m, c >= 1;
}
/// the two halves of block q are blocks 2q and 2q + 1 of half the size
pub proof fn blk_halves(a: Seq<E>, q: int, m: int, h: int) requires 0 <= q < m, h >= 1, a.len() == m * (2 * h)
    ensures blk(a, q, 2 * h).take(h) == blk(a, 2 * q, h), blk(a, q, 2 * h).skip(h) == blk(a, 2 * q + 1, h), blk(a, q, 2 * h).len() == 2 * h
{
    inside(q, m, 2 * h);
    assert((2 * q) * h == q * (2 * h)) by (nonlinear_arith);
    assert((2 * q + 1) * h == q * (2 * h) + h) by (nonlinear_arith);
    assert((2 * q + 1 + 1) * h == q * (2 * h) + 2 * h) by (nonlinear_arith);
    assert(blk(a, q, 2 * h).take(h) =~= blk(a, 2 * q, h)); assert(blk(a, q, 2 * h).skip(h) =~= blk(a, 2 * q + 1, h));
}
/// the block that is about to be processed is still that of the previous stage
pub proof fn untouched(a: Seq<E>, b: Seq<E>, a1: Seq<E>, w: F, l: nat, st: nat, m: int)
    requires st < l, staged(b, a1, w, l, st), half_staged(a, b, a1, w, l, st, m), 0 <= m < p2((l - st - 1) as nat), a.len() == p2(l), a1.len() == a.len()
    ensures
        blk(a, m, p2(st + 1) as int).len() == p2(st + 1),
        joined(blk(a, m, p2(st + 1) as int).take(p2(st) as int), blk(a, m, p2(st + 1) as int).skip(p2(st) as int), fpow(w, p2((l - st - 1) as nat)))
            == but(blk(a1, m, p2(st + 1) as int), fpow(w, p2((l - st - 1) as nat)), st + 1),
{
    let h = p2(st) as int; let g = p2((l - st - 1) as nat) as int; let v = fpow(w, g as nat);
    p2_pos(st); p2_add((l - st - 1) as nat, st + 1);
    assert(p2(st + 1) == 2 * h); assert(p2((l - st) as nat) == 2 * g);
    assert((l - st - 1) + (st + 1) == l);
    blk_halves(a, m, g, h); blk_halves(b, m, g, h); blk_halves(a1, m, g, h);
    inside(m, g, 2 * h);
    assert(blk(a, m, 2 * h) =~= blk(b, m, 2 * h));
    pow_add(w, g as nat, g as nat);
    assert(fpow(w, (2 * g) as nat) == sq(v));
    assert(blk(b, 2 * m, h) == but(blk(a1, 2 * m, h), sq(v), st));
    assert(blk(b, 2 * m + 1, h) == but(blk(a1, 2 * m + 1, h), sq(v), st));
}
pub proof fn advanced(a: Seq<E>, n: Seq<E>, p: Seq<E>, b: Seq<E>, a1: Seq<E>, w: F, l: nat, st: nat, m: int)
    requires st < l, half_staged(a, b, a1, w, l, st, m), 0 <= m < p2((l - st - 1) as nat), a.len() == p2(l),
        p.len() == p2(st + 1), p == but(blk(a1, m, p2(st + 1) as int), fpow(w, p2((l - st - 1) as nat)), st + 1),
        n == a.take(m * p2(st + 1)) + p + a.skip((m + 1) * p2(st + 1)),
    ensures half_staged(n, b, a1, w, l, st, m + 1)
{
    let c = p2(st + 1) as int; let g = p2((l - st - 1) as nat) as int;
    p2_pos(st + 1); p2_add((l - st - 1) as nat, st + 1); assert((l - st - 1) + (st + 1) == l);
    inside(m, g, c);
    assert forall|q: int| 0 <= q < m + 1 implies #[trigger] blk(n, q, c) == but(blk(a1, q, c), fpow(w, g as nat), st + 1) by {
        inside(q, g, c);
        if q < m { inside(q, m, c); assert(blk(n, q, c) =~= blk(a, q, c)); } else { assert(blk(n, m, c) =~= p); }
    }
}
pub proof fn stage_done(a: Seq<E>, b: Seq<E>, a1: Seq<E>, w: F, l: nat, st: nat) requires st < l, half_staged(a, b, a1, w, l, st, p2((l - st - 1) as nat) as int) ensures staged(a, a1, w, l, st + 1) {
    assert((l - (st + 1)) as nat == (l - st - 1) as nat);
}
pub proof fn all_staged(a: Seq<E>, a1: Seq<E>, w: F, l: nat) requires staged(a, a1, w, l, l), a.len() == p2(l), a1.len() == p2(l) ensures a == but(a1, w, l) {
    assert(p2(0) == 1); pow1(w); let c = p2(l) as int; assert(0 * c == 0 && 1 * c == c);
    assert(blk(a, 0, c) =~= a); assert(blk(a1, 0, c) =~= a1);
}
/// permutation in progress: everything reached from below k is in place
pub open spec fn swapping(a: Seq<E>, s: Seq<E>, l: nat, k: int) -> bool {
    a.len() == s.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == (if j < k || rev(j as nat, l) < k { s[rev(j as nat, l) as int] } else { s[j] })
}
pub proof fn rev_zero(l: nat) ensures rev(0, l) == 0 decreases l { if l > 0 { p2_pos((l - 1) as nat); rev_zero((l - 1) as nat); } }
pub proof fn swapped(a: Seq<E>, b: Seq<E>, s: Seq<E>, l: nat, k: int)
    requires swapping(a, s, l, k), 0 <= k < a.len(), a.len() == p2(l),
        (k <= rev(k as nat, l) && b =~= a.update(k, a[rev(k as nat, l) as int]).update(rev(k as nat, l) as int, a[k])) || (k >= rev(k as nat, l) && b =~= a),
    ensures swapping(b, s, l, k + 1)
{
    rev_less(k as nat, l); rev_rev(k as nat, l);
    let r = rev(k as nat, l) as int;
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] == (if j < k + 1 || rev(j as nat, l) < k + 1 { s[rev(j as nat, l) as int] } else { s[j] }) by {
        rev_less(j as nat, l); rev_rev(j as nat, l);
        assert(a[j] == (if j < k || rev(j as nat, l) < k { s[rev(j as nat, l) as int] } else { s[j] }));
        assert(a[k] == (if r < k { s[r] } else { s[k] }));
        assert(a[r] == (if r < k || rev(r as nat, l) < k { s[rev(r as nat, l) as int] } else { s[r] }));
    }
}
"""
LAGRANGE = """
pub uninterp spec fn finv(a: F) -> F;
pub axiom fn inv_mul(a: F) requires a != fzero() ensures fmul(a, finv(a)) == fone();
pub proof fn no_divisors(a: F, b: F) requires fmul(a, b) == fzero() ensures a == fzero() || b == fzero() {
    if a != fzero() { inv_mul(a); mul_comm(a, finv(a)); mul_assoc(finv(a), a, b); mone(b); mul_zero(finv(a)); }
}
pub proof fn inv_unique(a: F, b: F) requires a != fzero(), fmul(a, b) == fone() ensures b == finv(a) {
    inv_mul(a); mul_comm(a, finv(a)); mul_assoc(finv(a), a, b); mone(b); mul_one(finv(a));
}
pub proof fn rdistr(b: F, c: F, a: F) ensures fmul(fadd(b, c), a) == fadd(fmul(b, a), fmul(c, a)) { mul_comm(fadd(b, c), a); distr(a, b, c); mul_comm(a, b); mul_comm(a, c); }
pub proof fn lneg(a: F, b: F) ensures fmul(fneg(a), b) == fneg(fmul(a, b)) { mul_comm(fneg(a), b); neg_mul(b, a); mul_comm(a, b); }
pub proof fn fadd4(a: F, b: F, c: F, d: F) ensures fadd(fadd(a, b), fadd(c, d)) == fadd(fadd(a, c), fadd(b, d)) {
    add_assoc(a, b, fadd(c, d)); add_assoc(b, c, d); add_comm(b, c); add_assoc(c, b, d); add_assoc(a, c, fadd(b, d));
}
pub proof fn sub_zero(a: F, b: F) ensures fsub(a, b) == fzero() <==> a == b {
    add_neg(b); add_assoc(a, fneg(b), b); add_comm(fneg(b), b); add_zero(a); azero(b);
}
pub proof fn neg_is(a: F, b: F) requires fadd(a, b) == fzero() ensures a == fneg(b) { add_assoc(a, b, fneg(b)); add_neg(b); add_zero(a); azero(fneg(b)); }
pub proof fn diff_squares(x: F, u: F) ensures fmul(fsub(x, u), fadd(x, u)) == fsub(sq(x), sq(u)) {
    let m = fneg(u);
    distr(fadd(x, m), x, u); rdistr(x, m, x); rdistr(x, m, u); lneg(u, x); lneg(u, u); mul_comm(u, x);
    let p = fmul(x, u);
    // (xx - p) + (p - uu)
    add_assoc(sq(x), fneg(p), fadd(p, fneg(sq(u)))); add_assoc(fneg(p), p, fneg(sq(u))); add_comm(fneg(p), p); add_neg(p); azero(fneg(sq(u)));
}
pub proof fn order(w: F, l: nat, i: nat) requires root(w, l) ensures fpow(fpow(w, i), p2(l)) == fone() {
    pow_pow(w, i, p2(l)); root_one(w, l); pow_pow(w, p2(l), i); one_pow(i); assert(i * p2(l) == p2(l) * i) by (nonlinear_arith);
}
/// every 2^l-th root of unity is a power of w
pub proof fn member(x: F, w: F, l: nat) requires root(w, l), fpow(x, p2(l)) == fone() ensures exists|i: nat| i < p2(l) && x == #[trigger] fpow(w, i) decreases l {
    if l == 0 { pow1(x); assert(x == fpow(w, 0)); } else {
        let h = p2((l - 1) as nat); let z = fpow(x, h);
        p2_pos((l - 1) as nat);
        root_sq(w, l); pow_add(x, h, h); diff_squares(z, fone()); mul_one(fone()); sub_zero(fone(), fone()); no_divisors(fsub(z, fone()), fadd(z, fone()));
        assert(2 * h == h + h);
        // the root of x^2 in the smaller domain
        pow_sq(x, h);
        if fsub(z, fone()) == fzero() {
            sub_zero(z, fone());
            member(x, sq(w), (l - 1) as nat);
            let i = choose|i: nat| i < h && x == #[trigger] fpow(sq(w), i);
            pow_sq(w, i);
            assert(x == fpow(w, 2 * i));
        } else {
            neg_is(z, fone());
            let y = fmul(x, w);
            pow_mul(x, w, h); neg_sq(fone());
            member(y, sq(w), (l - 1) as nat);
            let i = choose|i: nat| i < h && y == #[trigger] fpow(sq(w), i);
            pow_sq(w, i);
            // x w = w^(2i): x = w^(2i - 1), or w^(n - 1) if i = 0
            let k = (if i == 0 { 2 * h - 1 } else { 2 * i - 1 }) as nat;
            root_one(w, l);
            let t = fpow(w, (2 * h - 1) as nat);
            assert(fmul(t, w) == fone());
            mul_comm(t, w); mul_assoc(x, w, t); mul_one(x);
            assert(x == fmul(fpow(w, 2 * i), t));
            if i == 0 { mone(t); } else {
                let g = fpow(w, (2 * i - 1) as nat);
                assert(fpow(w, 2 * i) == fmul(g, w)); mul_assoc(g, w, t); mul_one(g);
            }
            assert(x == fpow(w, k));
        }
    }
}
pub open spec fn wt(x: F, w: F, i: nat) -> F { fmul(fpow(w, i), finv(fsub(x, fpow(w, i)))) }
/// sum over a <= i < a + k of s(w^i) w^i / (x - w^i)
pub open spec fn seg(s: Seq<E>, w: F, x: F, a: nat, k: nat) -> E decreases k { if k == 0 { ez() } else { ea(seg(s, w, x, a, (k - 1) as nat), sc(ev(s, fpow(w, (a + k - 1) as nat)), wt(x, w, (a + k - 1) as nat))) } }
pub proof fn seg_split(s: Seq<E>, w: F, x: F, a: nat, k: nat) ensures seg(s, w, x, 0, a + k) == ea(seg(s, w, x, 0, a), seg(s, w, x, a, k)) decreases k {
    if k == 0 { e_zero(seg(s, w, x, 0, a)); } else {
        seg_split(s, w, x, a, (k - 1) as nat);
        assert((a + k - 1) as nat == a + ((k - 1) as nat));
        e_assoc(seg(s, w, x, 0, a), seg(s, w, x, a, (k - 1) as nat), sc(ev(s, fpow(w, (a + k - 1) as nat)), wt(x, w, (a + k - 1) as nat)));
    }
}
pub open spec fn two() -> F { fadd(fone(), fone()) }
pub proof fn dbl(a: F) ensures fmul(a, two()) == fadd(a, a) { distr(a, fone(), fone()); mul_one(a); }
/// the terms of u and of -u together
pub proof fn pair(a: E, b: E, u: F, x: F)
    requires sq(x) != sq(u)
    ensures ({
        let p = ea(a, sc(b, u)); let q = ea(a, sc(b, fneg(u)));
        ea(sc(p, fmul(u, finv(fsub(x, u)))), sc(q, fmul(fneg(u), finv(fsub(x, fneg(u)))))) == sc(sc(ea(a, sc(b, x)), fmul(sq(u), finv(fsub(sq(x), sq(u))))), two())
    })
{
    let m = fneg(u); let (d1, d2) = (fsub(x, u), fsub(x, m)); let d = fsub(sq(x), sq(u)); let v = sq(u);
    let p = ea(a, sc(b, u)); let q = ea(a, sc(b, m));
    neg_neg(u); diff_squares(x, u);
    assert(fmul(d1, d2) == d);
    sub_zero(sq(x), v);
    mul_zero(d1); mul_zero(d2); mul_comm(d1, d2);
    let (i1, i2) = (finv(d1), finv(d2)); let i0 = finv(d);
    // 1/d1 = d2/d and 1/d2 = d1/d
    inv_mul(d); mul_assoc(d1, d2, i0); inv_unique(d1, fmul(d2, i0)); mul_assoc(d2, d1, i0); inv_unique(d2, fmul(d1, i0));
    let (c1, c2) = (fmul(u, d2), fmul(m, d1));
    mul_assoc(u, d2, i0); mul_assoc(m, d1, i0);
    assert(fmul(u, i1) == fmul(c1, i0)); assert(fmul(m, i2) == fmul(c2, i0));
    sc_mul(p, c1, i0); sc_mul(q, c2, i0); sc_dist(sc(p, c1), sc(q, c2), i0);
    // sc(p, c1) + sc(q, c2) = sc(a, c1 + c2) + sc(b, u c1 + m c2)
    sc_dist(a, sc(b, u), c1); sc_dist(a, sc(b, m), c2); sc_mul(b, u, c1); sc_mul(b, m, c2);
    let (e1, e2) = (fmul(u, c1), fmul(m, c2));
    ea4(sc(a, c1), sc(b, e1), sc(a, c2), sc(b, e2)); sc_add(a, c1, c2); sc_add(b, e1, e2);
    // c1 = ux + v, c2 = -(ux) + v
    let ux = fmul(u, x);
    distr(u, x, u); assert(d2 == fadd(x, u)); assert(c1 == fadd(ux, v));
    distr(m, x, m); lneg(u, x); neg_sq(u); assert(c2 == fadd(fneg(ux), v));
    fadd4(ux, v, fneg(ux), v); add_neg(ux); azero(fadd(v, v)); dbl(v);
    assert(fadd(c1, c2) == fmul(v, two()));
    // e1 = u ux + u v, e2 = u ux - u v
    distr(u, ux, v); distr(m, fneg(ux), v); neg_mul(m, ux); lneg(u, ux); neg_neg(fmul(u, ux)); lneg(u, v);
    let (f, g) = (fmul(u, ux), fmul(u, v));
    assert(e1 == fadd(f, g)); assert(e2 == fadd(f, fneg(g)));
    fadd4(f, g, f, fneg(g)); add_neg(g); add_zero(fadd(f, f)); dbl(f); mul_assoc(u, u, x);
    assert(fadd(e1, e2) == fmul(fmul(v, x), two()));
    let vt = fmul(v, two());
    mul_assoc(v, x, two()); mul_comm(x, two()); mul_assoc(v, two(), x); mul_comm(vt, x);
    assert(fadd(e1, e2) == fmul(x, vt));
    sc_mul(b, x, vt); sc_dist(a, sc(b, x), vt);
    let t = ea(a, sc(b, x));
    assert(ea(sc(p, c1), sc(q, c2)) == sc(t, vt));
    sc_mul(t, vt, i0); mul_assoc(v, two(), i0); mul_comm(two(), i0); mul_assoc(v, i0, two()); sc_mul(t, fmul(v, i0), two());
}
pub open spec fn halved(s: Seq<E>, x: F) -> Seq<E> { plus(evens(s), scaled(odds(s), x)) }
pub proof fn seg_pairs(s: Seq<E>, w: F, x: F, l: nat, k: nat)
    requires l > 0, root(w, l), s.len() == p2(l), k <= p2((l - 1) as nat), fpow(x, p2(l)) != fone()
    ensures ea(seg(s, w, x, 0, k), seg(s, w, x, p2((l - 1) as nat), k)) == sc(seg(halved(s, x), sq(w), sq(x), 0, k), two())
    decreases k
{
    let h = p2((l - 1) as nat);
    if k == 0 { e_zero(ez()); sc_ez(two()); } else {
        let i = (k - 1) as nat;
        seg_pairs(s, w, x, l, i);
        let u = fpow(w, i); let v = sq(u); let y = sq(x);
        pow_sq(w, i); pow_sq(x, h); root_sq(w, l); order(sq(w), (l - 1) as nat, i);
        assert(v != y);
        root_half(w, l, i);
        ev_halves(s, u); ev_halves(s, fneg(u)); neg_sq(u);
        let (a, b) = (ev(evens(s), v), ev(odds(s), v));
        pair(a, b, u, x);
        ev_plus(evens(s), scaled(odds(s), x), v); ev_scaled(odds(s), x, v);
        let t1 = sc(ev(s, u), wt(x, w, i)); let t2 = sc(ev(s, fneg(u)), wt(x, w, i + h));
        assert((h + k - 1) as nat == i + h);
        ea4(seg(s, w, x, 0, i), t1, seg(s, w, x, h, i), t2);
        let t = sc(ev(halved(s, x), v), wt(y, sq(w), i));
        assert(ea(t1, t2) == sc(t, two()));
        sc_dist(seg(halved(s, x), sq(w), y, 0, i), t, two());
    }
}
/// barycentric interpolation over the whole domain
pub proof fn lagrange(s: Seq<E>, w: F, x: F, l: nat)
    requires root(w, l), s.len() == p2(l), fpow(x, p2(l)) != fone()
    ensures sc(seg(s, w, x, 0, p2(l)), fsub(fpow(x, p2(l)), fone())) == sc(ev(s, x), f2(l))
    decreases l
{
    if l == 0 {
        pow1(x); sub_zero(x, fone()); inv_mul(fsub(x, fone()));
        reveal_with_fuel(ev, 2); reveal_with_fuel(seg, 2);
        assert(s.drop_last().len() == 0);
        let d = fsub(x, fone());
        assert(ev(s, x) == ea(ez(), sc(s[0], fone()))); assert(ev(s, fone()) == ea(ez(), sc(s[0], fone())));
        zero_e(s[0]); sc_one(s[0]); mone(finv(d));
        assert(seg(s, w, x, 0, 0) == ez());
        assert(seg(s, w, x, 0, 1) == ea(ez(), sc(ev(s, fpow(w, 0)), wt(x, w, 0))));
        zero_e(sc(s[0], finv(d)));
        sc_mul(s[0], finv(d), d); mul_comm(finv(d), d);
    } else {
        let h = p2((l - 1) as nat); let y = sq(x); let q = halved(s, x);
        root_sq(w, l); pow_sq(x, h);
        lagrange(q, sq(w), y, (l - 1) as nat);
        seg_split(s, w, x, h, h); seg_pairs(s, w, x, l, h);
        let g = seg(q, sq(w), y, 0, h); let e = fsub(fpow(x, p2(l)), fone()); let f = f2((l - 1) as nat);
        assert(seg(s, w, x, 0, p2(l)) == sc(g, two()));
        sc_mul(g, two(), e); mul_comm(two(), e); sc_mul(g, e, two());
        ev_halves(s, x); ev_plus(evens(s), scaled(odds(s), x), y); ev_scaled(odds(s), x, y);
        assert(ev(q, y) == ev(s, x));
        sc_mul(ev(s, x), f, two()); dbl(f);
    }
}
/// sum of the values on the domain, weighted by r
pub open spec fn weighted(s: Seq<E>, w: F, r: Seq<F>, k: nat) -> E decreases k { if k == 0 { ez() } else { ea(weighted(s, w, r, (k - 1) as nat), sc(ev(s, fpow(w, (k - 1) as nat)), r[k - 1])) } }
pub open spec fn weights(r: Seq<F>, x: F, w: F, c: F) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == fmul(wt(x, w, i as nat), c) }
pub proof fn weighted_is(s: Seq<E>, w: F, x: F, r: Seq<F>, c: F, k: nat) requires k <= r.len(), weights(r, x, w, c) ensures weighted(s, w, r, k) == sc(seg(s, w, x, 0, k), c) decreases k {
    if k == 0 { sc_ez(c); } else {
        let i = (k - 1) as nat;
        weighted_is(s, w, x, r, c, i);
        assert(r[i as int] == fmul(wt(x, w, i), c));
        let t = ev(s, fpow(w, i));
        sc_mul(t, wt(x, w, i), c); sc_dist(seg(s, w, x, 0, i), sc(t, wt(x, w, i)), c);
    }
}
pub proof fn interpolates(s: Seq<E>, w: F, x: F, l: nat, r: Seq<F>, ninv: F)
    requires root(w, l), s.len() == p2(l), r.len() == p2(l), fpow(x, p2(l)) != fone(), fmul(f2(l), ninv) == fone(), weights(r, x, w, fmul(fsub(fpow(x, p2(l)), fone()), ninv))
    ensures weighted(s, w, r, p2(l)) == ev(s, x)
{
    let e = fsub(fpow(x, p2(l)), fone()); let g = seg(s, w, x, 0, p2(l));
    lagrange(s, w, x, l); weighted_is(s, w, x, r, fmul(e, ninv), p2(l));
    sc_mul(g, e, ninv); sc_mul(ev(s, x), f2(l), ninv); sc_one(ev(s, x));
}
"""
DOMAINS = LAGRANGE + """
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
pub uninterp spec fn two_adicity() -> u32;
pub uninterp spec fn primitive() -> F;
pub uninterp spec fn primitive_inv() -> F;
/// the contract of ff::PrimeField
pub axiom fn prime_field() ensures two_adicity() <= 32, root(primitive(), two_adicity() as nat), fmul(primitive(), primitive_inv()) == fone(), two() != fzero();
#[verifier::external_body] const fn s_() -> (r: u32) ensures r == two_adicity() { 0 }
#[verifier::external_body] const fn g_() -> (r: F) ensures r == primitive() { F::zero_() }
#[verifier::external_body] const fn gi_() -> (r: F) ensures r == primitive_inv() { F::zero_() }
#[verifier::external_body] const fn h_() -> (r: F) ensures r == finv(two()) { F::zero_() }
impl F {
    pub exec const S: u32 ensures Self::S == two_adicity() { s_() }
    pub exec const ROOT_OF_UNITY: F ensures Self::ROOT_OF_UNITY == primitive() { g_() }
    pub exec const ROOT_OF_UNITY_INV: F ensures Self::ROOT_OF_UNITY_INV == primitive_inv() { gi_() }
    pub exec const TWO_INV: F ensures Self::TWO_INV == finv(two()) { h_() }
    #[verifier::external_body] pub fn pow(&self, e: [u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as nat) { unimplemented!() }
    #[verifier::external_body] pub fn pow_vartime(&self, e: [u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as nat) { unimplemented!() }
    #[verifier::external_body] pub fn eq_(&self, o: F) -> (r: bool) ensures r == (*self == o) { unimplemented!() }
}
#[verifier::external_body] fn zeros(n: usize) -> (r: Vec<F>) ensures r.len() == n { unimplemented!() }
#[verifier::external_body] fn invert_all(v: &mut Vec<F>, scratch: &mut Vec<F>)
    requires old(v).len() == old(scratch).len()
    ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < old(v).len() ==> #[trigger] final(v)[i] == if old(v)[i] == fzero() { fzero() } else { finv(old(v)[i]) } { unimplemented!() }
pub struct Domain { pub n: usize, pub log2_n: u32, pub omega: F, pub omega_inv: F, pub n_inv: F }
impl Domain {
    pub open spec fn inv(&self) -> bool {
        let l = self.log2_n as nat;
        &&& l <= two_adicity() && self.omega == fpow(primitive(), p2((two_adicity() - l) as nat))
        &&& self.n == p2(l) && l <= 32 && root(self.omega, l) && fmul(self.omega, self.omega_inv) == fone() && fmul(f2(l), self.n_inv) == fone()
    }
    pub open spec fn has(&self, x: F) -> bool { exists|i: nat| i < self.n && x == #[trigger] fpow(self.omega, i) }
    pub proof fn has_iff(&self, x: F) requires self.inv() ensures self.has(x) <==> fpow(x, self.n as nat) == fone() {
        let l = self.log2_n as nat;
        if fpow(x, p2(l)) == fone() { member(x, self.omega, l); }
        if self.has(x) { let i = choose|i: nat| i < self.n && x == #[trigger] fpow(self.omega, i); order(self.omega, l, i); }
    }
}
pub proof fn half_pow(l: nat) requires two() != fzero() ensures fmul(f2(l), fpow(finv(two()), l)) == fone() decreases l {
    if l == 0 { mul_one(fone()); } else {
        let k = (l - 1) as nat; let (f, g, i) = (f2(k), fpow(finv(two()), k), finv(two()));
        half_pow(k); dbl(f); inv_mul(two()); mul4(f, two(), g, i); mul_one(fone());
    }
}
"""
STUBS = {
    "halve": "#[verifier::external_body] fn halve(&self) -> (r: Domain) requires self.inv() ensures self.log2_n >= 1, r.inv(), r.log2_n == self.log2_n - 1 { unimplemented!() }",
    "default": "#[verifier::external_body] fn default() -> (r: Domain) ensures r.inv(), r.log2_n == two_adicity() { unimplemented!() }",
    "fft": """#[verifier::external_body] fn fft(a: &mut [E], omega: F, log_n: u32) requires log_n <= 32, root(omega, log_n as nat)
             ensures old(a).len() == p2(log_n as nat), final(a)@ == dft(old(a)@, omega) { unimplemented!() }""",
    "ring_fft": """#[verifier::external_body] fn ring_fft(&self, input: &mut [E]) requires self.inv() ensures old(input).len() == self.n, final(input)@ == dft(old(input)@, self.omega) { unimplemented!() }""",
    "ring_ifft": """#[verifier::external_body] fn ring_ifft(&self, input: &mut [E]) requires self.inv()
             ensures old(input).len() == self.n, dft(final(input)@, self.omega) == old(input)@, forall|s: Seq<E>| s.len() == self.n && old(input)@ == #[trigger] dft(s, self.omega) ==> final(input)@ == s { unimplemented!() }""",
}
KNIT = """
pub proof fn knit(l0: Seq<E>, r0: Seq<E>, a: Seq<E>, l: Seq<E>, b: Seq<E>, r: Seq<E>, t: Seq<F>, w: F, c: nat)
    requires c >= 1, l0.len() == r0.len(), l0.len() >= 1, a.len() == 1, b.len() == 1, powers(t, w), t.len() == c * l0.len(),
        a[0] == ea(l0[0], r0[0]), b[0] == es(l0[0], r0[0]),
        fly(l0.skip(1), r0.skip(1), l, r, t, c as int, l0.len() - 1),
    ensures (a + l) + (b + r) == joined(l0, r0, fpow(w, c))
{
    let h = l0.len() as int; let o = (a + l) + (b + r); let j = joined(l0, r0, fpow(w, c));
    assert forall|k: int| 0 <= k < 2 * h implies #[trigger] o[k] == j[k] by {
        let i = if k < h { k } else { k - h };
        if i == 0 { sc_one(r0[0]); } else {
            in_table(i, c as int, h); pow_pow(w, c, i as nat);
            assert(t[i * c] == fpow(w, (i * c) as nat));
            assert(c * i == i * c) by (nonlinear_arith);
            assert(l0.skip(1)[i - 1] == l0[i]); assert(r0.skip(1)[i - 1] == r0[i]);
            assert(l[i - 1] == ea(l0.skip(1)[i - 1], sc(r0.skip(1)[i - 1], t[((i - 1) + 1) * c])));
            assert(r[i - 1] == es(l0.skip(1)[i - 1], sc(r0.skip(1)[i - 1], t[((i - 1) + 1) * c])));
        }
    }
    assert(o =~= j);
}
pub proof fn in_table(i: int, c: int, h: int) requires 0 <= i < h, c >= 0 ensures 0 <= i * c, c >= 1 ==> i * c < c * h { assert(0 <= i * c) by (nonlinear_arith) requires 0 <= i, c >= 0; if c >= 1 { assert(i * c < c * h) by (nonlinear_arith) requires i < h, c >= 1; } }
"""
PRELUDE = prelude("").replace("pub mod code {", MODULE + "\npub mod code {").replace("//@CODE", THEORY + "\n//@CODE")
FUNCTIONS = [
    dict(name="recursive_butterfly_arithmetic", file=FFT, title="the butterfly recursion, for every size and every ring",
         sig="pub fn recursive_butterfly_arithmetic(a: &mut [E], n: usize, twiddle_chunk: usize, twiddles: &[F], w_: Ghost<F>, l_: Ghost<nat>)",
         spec="""requires n == p2(l_@), l_@ >= 1, l_@ < 63, old(a).len() == n, powers(twiddles@, w_@), twiddle_chunk >= 1, twiddle_chunk * p2((l_@ - 1) as nat) == twiddles.len(),
             ensures final(a)@ == but(old(a)@, fpow(w_@, twiddle_chunk as nat), l_@), final(a)@.len() == n,
             decreases l_@,""",
         transform=[JOIN, PAIRS],
         rewrite=[(r"recursive_butterfly_arithmetic::<R>\(([^()]*)\)", r"recursive_butterfly_arithmetic(\1, w_, Ghost((l_@ - 1) as nat))", "ghost arguments of the recursion"),
                  (r"let \((\w+), (\w+)\) = (\w+)\.split_at_mut\(1\);\s*let \((\w+), (\w+)\) = (\w+)\.split_at_mut\(1\);",
                   r"let ghost l0 = \3@; let ghost r0 = \6@; let (\1, \2) = \3.split_at_mut(1); let (\4, \5) = \6.split_at_mut(1); let ghost l1 = \2@; let ghost r1 = \5@; let ghost lv = \2; let ghost rv = \5;", "ghost copies"),
                  ],
         context=CTX + KNIT, pre="""let ghost a0 = a@; let ghost c_ = twiddle_chunk as nat; let ghost h_ = p2((l_@ - 1) as nat);
            proof {
                p2_pos((l_@ - 1) as nat); pow_add(w_@, c_, c_);
                if l_@ == 1 { sc_one(a0[1]); assert(a0.take(1)[0] == a0[0]); assert(a0.skip(1)[0] == a0[1]); assert(h_ == 1); }
                else {
                    p2_pos((l_@ - 2) as nat);
                    let g = p2((l_@ - 2) as nat);
                    assert((c_ * 2) * g == c_ * h_) by (nonlinear_arith) requires h_ == 2 * g;
                    assert(c_ * 2 <= c_ * h_) by (nonlinear_arith) requires h_ >= 2;
                }
            }""",
         loops=[dict(inv="""invariant n__ == l1.len(), twiddle_chunk >= 1, n__ == h_ - 1, c_ == twiddle_chunk, h_ == p2((l_@ - 1) as nat), fly(l1, r1, left@, right@, twiddles@, twiddle_chunk as int, i as int), l1.len() == r1.len(), l1.len() == p2((l_@ - 1) as nat) - 1, twiddles.len() == twiddle_chunk * h_, l_@ < 63,""",
              start="proof { in_table(i + 1, c_ as int, h_ as int); }",
              after="""proof {
                  knit(l0, r0, a@, left@, b@, right@, twiddles@, w_@, c_);
                  assert(but(a0, fpow(w_@, c_), l_@) == joined(l0, r0, fpow(w_@, c_)));
              }""")],
         post="""proof {
             if l_@ == 1 {
                 let j = joined(but(a0.take(1), sq(fpow(w_@, c_)), 0), but(a0.skip(1), sq(fpow(w_@, c_)), 0), fpow(w_@, c_));
                 assert(but(a0, fpow(w_@, c_), 1) == j);
                 assert(a@[0] == j[0]); assert(a@[1] == j[1]);
                 assert(a@ =~= j);
             } else { assert(a@ =~= but(a0, fpow(w_@, c_), l_@)); }
         }""",
    ),
    dict(name="fft", file=FFT, title="equals the transform, for every size, ring, root of unity and number of threads; a length that is not the size is refused",
         sig="pub fn fft(a: &mut [E], omega: F, log_n: u32)",
         spec="""requires log_n <= 32, root(omega, log_n as nat),
             ensures old(a).len() == p2(log_n as nat), final(a)@ == dft(old(a)@, omega),""",
         transform=[CHUNKS, PAIRS, SCAN, ASSERTS],
         rewrite=[(r"\ba\.swap\(", "swap(a, ", "slice::swap"), (r": alloc::vec::Vec<_>", ": Vec<F>", "the element type is inferred"), (r"\(\s*1 <<", "(1usize <<", "the type of the literal is inferred"),
                  (r"recursive_butterfly_arithmetic::<R>\(([^()]*)\)", r"recursive_butterfly_arithmetic(\1, Ghost(omega), Ghost(log_n as nat))", "ghost arguments of the recursion"),
                  (r"let \((\w+), (\w+)\) = (\w+)\.split_at_mut\(1\);\s*let \((\w+), (\w+)\) = (\w+)\.split_at_mut\(1\);",
                   r"let ghost l0 = \3@; let ghost r0 = \6@; let (\1, \2) = \3.split_at_mut(1); let (\4, \5) = \6.split_at_mut(1); let ghost l1 = \2@; let ghost r1 = \5@;", "ghost copies"),
                  (r"let (\w+) = piece\(a, ", r"let ghost ab = a@; proof { untouched(ab, as_, a1_, omega, l_, st_, q__ as int); inside(q__ as int, g_ as int, chunk as int); p2_add((l_ - st_ - 1) as nat, st_ + 1); assert((l_ - st_ - 1) + (st_ + 1) == l_); } let ghost mut p_: Seq<E> = Seq::empty(); let \1 = piece(a, ", "ghost state before the piece"),
                  (r"refuse_unless\(\(n\) == \((.*?)\)\);", r"refuse_unless((n) == (\1)); let ghost s_ = a@; let ghost l_ = log_n as nat; proof { shl_p2(log_n); p2_32(l_); p2_pos(l_); }", "ghost state after the length check"),
                  ],
         names={"tw": r"let (\w+)(?:: [^=]*)?\s*=\s*\(0\.\.", "chunk": r"let mut (\w+) = 2_usize", "tc": r"let mut (\w+) = n / 2;"},
         context=CTX + KNIT + STAGES,
         loops=[
             dict(inv="""invariant n == p2(l_), a.len() == n, s_.len() == n, log_n == l_, l_ <= 32, n <= 0x1_0000_0000, swapping(a@, s_, l_, it0.index() as int),""",
                  start="let ghost as_ = a@; let ghost k_ = it0.index() as int; proof { rev_less(k_ as nat, l_); rev_zero(l_); }",
                  end="proof { swapped(as_, a@, s_, l_, k_); }",
                  after="proof { assert(a@ =~= reversed(s_, l_)); } let ghost a1_ = a@;"),
             dict(inv="invariant v__.len() == it1.index(), w == fpow(omega, it1.index() as nat), powers(v__@, omega),"),
             dict(before="proof { staged_start(a1_, omega, l_); assert(p2(0) == 1); assert(p2(1) == 2 * p2(0)); if l_ >= 1 { assert(n / 2 == p2((l_ - 1) as nat)); } }",
                  inv="""invariant n == p2(l_), a.len() == n, a1_.len() == n, log_n == l_, l_ <= 32, n <= 0x1_0000_0000, root(omega, l_), powers($tw@, omega), $tw.len() == n / 2,
                      staged(a@, a1_, omega, l_, it2.index() as nat), $chunk == p2((it2.index() + 1) as nat), it2.index() < l_ ==> $tc == p2((l_ - it2.index() - 1) as nat),""",
                  start="""let ghost st_ = it2.index() as nat; let ghost as_ = a@; let ghost g_ = p2((l_ - st_ - 1) as nat);
                      proof { p2_pos(st_); p2_pos((l_ - st_ - 1) as nat); p2_add((l_ - st_ - 1) as nat, st_ + 1); assert((l_ - st_ - 1) + (st_ + 1) == l_);
                          p2_32((st_ + 1) as nat); assert($chunk == 2 * p2(st_)); assert(g_ * $chunk == n);
                          assert((g_ * $chunk + $chunk - 1) / ($chunk as int) == g_) by (nonlinear_arith) requires $chunk >= 1;
                          assert(0 * p2(st_ + 1) == 0);
                      }""",
                  end="proof { stage_done(a@, as_, a1_, omega, l_, st_); if st_ + 1 < l_ { assert(g_ == 2 * p2((l_ - st_ - 2) as nat)); assert((l_ - st_ - 2) as nat == (l_ - (st_ + 1) - 1) as nat); } }",
                  after="proof { all_staged(a@, a1_, omega, l_); }"),
             dict(inv="""invariant n == p2(l_), a.len() == n, a1_.len() == n, log_n == l_, l_ <= 32, n <= 0x1_0000_0000, powers($tw@, omega), $tw.len() == n / 2, st_ < l_, m__ == g_, g_ == p2((l_ - st_ - 1) as nat),
                      $chunk == p2(st_ + 1), $chunk == 2 * p2(st_), $tc == g_, g_ >= 1, p2(st_) >= 1, g_ * $chunk == n, staged(as_, a1_, omega, l_, st_), half_staged(a@, as_, a1_, omega, l_, st_, it3.index() as int),""",
                  end="proof { advanced(ab, a@, p_, as_, a1_, omega, l_, st_, q__ as int); }"),
             dict(inv="""invariant n__ == l1.len(), n__ == p2(st_) - 1, $tc >= 1, $tc == g_, l1.len() == r1.len(), fly(l1, r1, left@, right@, $tw@, $tc as int, i as int),
                      $tw.len() == g_ * p2(st_), $tw.len() <= 0x1_0000_0000,""",
                  before="proof { assert(n / 2 == g_ * p2(st_)) by (nonlinear_arith) requires g_ * chunk == n, chunk == 2 * p2(st_); }",
                  start="proof { in_table(i + 1, g_ as int, p2(st_) as int); }",
                  after="proof { knit(l0, r0, a@, left@, b@, right@, $tw@, omega, g_); p_ = joined(l0, r0, fpow(omega, g_)); }"),
         ],
         post="proof { pow1(omega); but_is_dft(s__, omega, log_n as nat); }", pre="let ghost s__ = a@;",
    ),
    dict(name="log2_floor", file=FFT, title="returns for every positive number of threads below 2^63", sig="pub fn log2_floor(num: usize) -> (r: u32)",
         spec="requires num < 0x8000_0000_0000_0000,", transform=[ASSERTS],
         context="#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }",
         names={"pow": r"let mut (\w+) = 0"}, rewrite=[(r"let mut (\w+) = 0;", r"let mut \1: u32 = 0;", "type of the counter"), (r"\(1 <<", "(1usize <<", "type of the literal")],
         loops=[dict(inv="invariant num < 0x8000_0000_0000_0000, $pow < 63, decreases 63 - $pow,",
                     start="proof { let q = $pow; if q == 62 { assert(1usize << 63u32 == 0x8000_0000_0000_0000) by (bit_vector); } }")]),

    dict(name="scale_assign", file=FFT, within=r"impl<F: PrimeField> Ring for FFTField<F>", title="the field as a module over itself: multiplication", sig="pub fn scale_assign(r: &mut F, by: F)", spec="ensures *final(r) == fmul(*old(r), by),"),
    dict(name="add_assign", file=FFT, within=r"impl<F: PrimeField> Ring for FFTField<F>", title="the field as a module over itself: addition", sig="pub fn add_assign(r: &mut F, other: &F)", spec="ensures *final(r) == fadd(*old(r), *other),"),
    dict(name="sub_assign", file=FFT, within=r"impl<F: PrimeField> Ring for FFTField<F>", title="the field as a module over itself: subtraction", sig="pub fn sub_assign(r: &mut F, other: &F)", spec="ensures *final(r) == fsub(*old(r), *other),"),
    dict(name="Domain::default", fn="default", file=DOMAIN, title="the largest domain: generator, inverses and size", sig="impl Domain { pub fn default() -> (r: Domain)",
         spec="ensures r.inv(), r.log2_n == two_adicity(),", suffix="}", context=DOMAINS, pre="proof { prime_field(); shl_p2(two_adicity()); half_pow(two_adicity() as nat); assert(p2(0) == 1); pow1(primitive()); }"),
    dict(name="Domain::halve", fn="halve", file=DOMAIN, title="halving keeps a domain: generator, inverses and size; a domain of one point is refused", sig="impl Domain { pub fn halve(&self) -> (r: Domain)",
         spec="requires self.inv() ensures self.log2_n >= 1, r.inv(), r.log2_n == self.log2_n - 1,", suffix="}", context=DOMAINS, transform=[ASSERTS],
         rewrite=[(r"let (\w+) = self\.log2_n - 1;", r"""let \1 = self.log2_n - 1; proof {
             let l = self.log2_n as nat; let f = f2((l - 1) as nat); let m = self.n_inv;
             let e = (two_adicity() - l) as nat; pow_add(primitive(), p2(e), p2(e)); assert((two_adicity() - (l - 1)) as nat == e + 1); assert(p2(e + 1) == 2 * p2(e));
             shl_p2(\1); root_sq(self.omega, l); mul4(self.omega, self.omega, self.omega_inv, self.omega_inv); mul_one(fone());
             rdistr(f, f, m); distr(f, m, m); }""", "ghost")]),
    dict(name="Domain::new", fn="new", file=DOMAIN, title="a domain of exactly the requested size; sizes the field does not have are refused", sig="impl Domain { pub fn new(k: u32) -> (r: Domain)",
         spec="ensures k <= two_adicity(), r.inv(), r.log2_n == k, r.n == p2(k as nat),", suffix=STUBS["halve"] + STUBS["default"] + "}", context=DOMAINS, transform=[ASSERTS],
         names={"tmp": r"let mut (\w+) ="},
         loops=[dict(inv="invariant $tmp.inv(), $tmp.log2_n == two_adicity() - it0.index(), k <= two_adicity(), it0.index() <= two_adicity() - k,")]),
    dict(name="Domain::n", fn="n", file=DOMAIN, title="the number of points", sig="impl Domain { pub fn n(&self) -> (r: usize)", spec="ensures r == self.n,", suffix="}", context=DOMAINS),
    dict(name="Domain::log2_n", fn="log2_n", file=DOMAIN, title="its logarithm", sig="impl Domain { pub fn log2_n(&self) -> (r: u32)", spec="ensures r == self.log2_n,", suffix="}", context=DOMAINS),
    dict(name="Domain::omega", fn="omega", file=DOMAIN, title="the generator", sig="impl Domain { pub fn omega(&self) -> (r: F)", spec="ensures r == self.omega,", suffix="}", context=DOMAINS),
    dict(name="Domain::contains", fn="contains", file=DOMAIN, title="true exactly for the powers of the generator", sig="impl Domain { pub fn contains(&self, x: F) -> (r: bool)",
         spec="requires self.inv() ensures r == self.has(x),", suffix="}", context=DOMAINS, pre="proof { self.has_iff(x); }",
         rewrite=[(r"(\S+)\s*==\s*F::ONE", r"\1.eq_(F::ONE)", "equality of field elements")]),
    dict(name="Domain::ring_fft", fn="ring_fft", file=DOMAIN, title="the transform over the domain, for every vector; another length is refused", sig="impl Domain { pub fn ring_fft(&self, input: &mut [E])",
         spec="requires self.inv() ensures old(input).len() == self.n, final(input)@ == dft(old(input)@, self.omega),", suffix="}", context=DOMAINS + STUBS["fft"],
         rewrite=[(r"crate::fft::fft::<R>\(", "fft(", "path")]),
    dict(name="Domain::ring_ifft", fn="ring_ifft", file=DOMAIN, title="undoes the transform, for every vector, on either side; another length is refused", sig="impl Domain { pub fn ring_ifft(&self, input: &mut [E])",
         spec="""requires self.inv()
             ensures old(input).len() == self.n, dft(final(input)@, self.omega) == old(input)@,
                 forall|s: Seq<E>| s.len() == self.n && old(input)@ == #[trigger] dft(s, self.omega) ==> final(input)@ == s,""", suffix="}", context=DOMAINS + STUBS["fft"],
         rewrite=[(r"crate::fft::fft::<R>\(([^;]*)\);", r"let ghost in_ = input@; proof { transform_back(Seq::new(p2(self.log2_n as nat), |i: int| ez()), self.omega, self.omega_inv, self.log2_n as nat); } fft(\1); let ghost d_ = input@; let ghost gr_ = input;", "path")],
         transform=[],
         loops=[dict(inv="""invariant it0.seq().len() == d_.len(), forall|k: int| 0 <= k < d_.len() ==> *(#[trigger] it0.seq()[k]) == d_[k], forall|k: int| 0 <= k < it0.index() ==> *final(#[trigger] it0.seq()[k]) == sc(d_[k], self.n_inv),""")],
         pre="let ghost in0_ = input@;",
         post="""proof {
             let l = self.log2_n as nat; let (w, v, m) = (self.omega, self.omega_inv, self.n_inv); let d = dft(in0_, v);
             assert(input@ =~= scaled(d, m));
             mul_comm(w, v);
             transform_back(in0_, v, w, l);
             assert forall|k: int| 0 <= k < in0_.len() implies #[trigger] dft(input@, w)[k] == in0_[k] by {
                 ev_scaled(d, m, fpow(w, k as nat));
                 assert(dft(d, w)[k] == scaled(in0_, f2(l))[k]);
                 sc_mul(in0_[k], f2(l), m); sc_one(in0_[k]);
             }
             assert(dft(input@, w) =~= in0_);
             assert forall|s: Seq<E>| s.len() == self.n && in0_ == #[trigger] dft(s, w) implies input@ == s by {
                 transform_back(s, w, v, l);
                 assert forall|k: int| 0 <= k < s.len() implies #[trigger] input@[k] == s[k] by { assert(d[k] == scaled(s, f2(l))[k]); sc_mul(s[k], f2(l), m); sc_one(s[k]); }
                 assert(input@ =~= s);
             }
         }"""),
    dict(name="Domain::fft", fn="fft", file=DOMAIN, title="the transform over field elements is ring_fft", sig="impl Domain { pub fn fft(&self, input: &mut [E])",
         spec="requires self.inv() ensures old(input).len() == self.n, final(input)@ == dft(old(input)@, self.omega),", suffix=STUBS["ring_fft"] + "}", context=DOMAINS,
         rewrite=[(r"ring_(\w+)::<crate::fft::FFTField<F>>", r"ring_\1", "the field is a module over itself")]),
    dict(name="Domain::ifft", fn="ifft", file=DOMAIN, title="the inverse transform over field elements is ring_ifft", sig="impl Domain { pub fn ifft(&self, input: &mut [E])",
         spec="""requires self.inv()
             ensures old(input).len() == self.n, dft(final(input)@, self.omega) == old(input)@, forall|s: Seq<E>| s.len() == self.n && old(input)@ == #[trigger] dft(s, self.omega) ==> final(input)@ == s,""", suffix=STUBS["ring_ifft"] + "}", context=DOMAINS,
         rewrite=[(r"ring_(\w+)::<crate::fft::FFTField<F>>", r"ring_\1", "the field is a module over itself")]),
    dict(name="Domain::ell", fn="ell", file=DOMAIN, title="weights that interpolate every vector of values at every point outside the domain, exactly none inside; more weights than points are refused",
         sig="impl Domain { pub fn ell(&self, x: F, amount: usize) -> (r: Option<Vec<F>>)",
         spec="""requires self.inv()
             ensures amount <= self.n, r.is_none() == self.has(x),
                 r.is_some() ==> r.unwrap().len() == amount && weights(r.unwrap()@, x, self.omega, fmul(fsub(fpow(x, self.n as nat), fone()), self.n_inv)),
                 r.is_some() && amount == self.n ==> forall|s: Seq<E>| s.len() == self.n ==> #[trigger] weighted(s, self.omega, r.unwrap()@, self.n as nat) == ev(s, x),""", suffix="}", context=DOMAINS,
         pre="proof { self.has_iff(x); } let ghost l_ = self.log2_n as nat; let ghost mut d0_: Seq<F> = Seq::empty();",
         transform=[SCAN, ASSERTS],
         names={"den": r"let mut (\w+): Vec<F> = \(0", "xn": r"let (\w+) = x\.pow"},
         rewrite=[(r"if (\w+)\s*==\s*F::ONE", r"if \1.eq_(F::ONE)", "equality of field elements"), (r"vec!\[F::ZERO; ([^\]]*)\]", r"zeros(\1)", "vec!"),
                  (r"ff::BatchInverter::invert_with_external_scratch\(([^;]*)\);", r"proof { d0_ = $den@; } invert_all(\1);", "BatchInverter"),
                  (r"Some\(\s*\{ let mut v__", r"Some({ let ghost e_ = fmul(fsub(fpow(x, self.n as nat), fone()), self.n_inv); let mut v__", "ghost"),
                  ],
         loops=[
             dict(inv="""invariant self.inv(), v__.len() == it0.index(), acc == fpow(self.omega, it0.index() as nat), forall|i: int| 0 <= i < v__.len() ==> #[trigger] v__[i] == fsub(x, fpow(self.omega, i as nat)),"""),
             dict(before="""let ghost d1_ = $den@; proof { mul_one(e_);
                     assert forall|i: int| 0 <= i < amount implies #[trigger] d1_[i] == finv(fsub(x, fpow(self.omega, i as nat))) by { assert(d0_[i] == fsub(x, fpow(self.omega, i as nat))); sub_zero(x, fpow(self.omega, i as nat)); }
                 }""",
                  inv="""invariant self.inv(), v__.len() == it1.index(), it1.seq() == d1_, d1_.len() == amount, forall|i: int| 0 <= i < amount ==> #[trigger] d1_[i] == finv(fsub(x, fpow(self.omega, i as nat))),
                      numerator == fmul(e_, fpow(self.omega, it1.index() as nat)), weights(v__@, x, self.omega, e_),""",
                  start="""proof { let i = it1.index() as nat; let p = fpow(self.omega, i);
                      mul_assoc(e_, p, self.omega); mul_assoc(e_, p, d1_[i as int]); mul_comm(e_, wt(x, self.omega, i)); }"""),
         ],
         post="""proof { if amount == self.n {
             assert forall|s: Seq<E>| s.len() == self.n implies #[trigger] weighted(s, self.omega, r__.unwrap()@, self.n as nat) == ev(s, x) by { interpolates(s, self.omega, x, l_, r__.unwrap()@, self.n_inv); }
         } }"""),
]
