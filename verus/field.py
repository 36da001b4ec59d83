"""The opaque field over which extracted bodies are verified: an abstract type with the operators of the
`ff` traits, each with its meaning as an uninterpreted function, and the field laws as axioms."""


def field():
    ops = [("Add", "add", "fadd"), ("Sub", "sub", "fsub"), ("Mul", "mul", "fmul")]
    out = """
pub mod fl {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
#[verifier::external_body]
pub struct F { x: u64 }
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fneg(a: F) -> F;
pub uninterp spec fn fzero() -> F;
pub uninterp spec fn fone() -> F;
pub open spec fn fsub(a: F, b: F) -> F { fadd(a, fneg(b)) }
pub open spec fn fpow(a: F, n: nat) -> F decreases n { if n == 0 { fone() } else { fmul(fpow(a, (n - 1) as nat), a) } }
pub mod law {
use super::*;
pub axiom fn add_comm(a: F, b: F) ensures fadd(a, b) == fadd(b, a);
pub axiom fn add_assoc(a: F, b: F, c: F) ensures fadd(fadd(a, b), c) == fadd(a, fadd(b, c));
pub axiom fn add_zero(a: F) ensures fadd(a, fzero()) == a;
pub axiom fn add_neg(a: F) ensures fadd(a, fneg(a)) == fzero();
pub axiom fn mul_comm(a: F, b: F) ensures fmul(a, b) == fmul(b, a);
pub axiom fn mul_assoc(a: F, b: F, c: F) ensures fmul(fmul(a, b), c) == fmul(a, fmul(b, c));
pub axiom fn mul_one(a: F) ensures fmul(a, fone()) == a;
pub axiom fn distr(a: F, b: F, c: F) ensures fmul(a, fadd(b, c)) == fadd(fmul(a, b), fmul(a, c));
pub proof fn mul_zero(a: F) ensures fmul(a, fzero()) == fzero() {
    add_zero(fzero()); distr(a, fzero(), fzero());
    let z = fmul(a, fzero());
    add_neg(z); add_assoc(z, z, fneg(z)); add_zero(z);
}
pub proof fn neg_mul(a: F, b: F) ensures fmul(a, fneg(b)) == fneg(fmul(a, b)) {
    let x = fmul(a, b); let y = fmul(a, fneg(b));
    distr(a, b, fneg(b)); add_neg(b); mul_zero(a);
    // x + y = 0
    add_neg(x); add_assoc(fneg(x), x, y); add_comm(fneg(x), x); add_zero(fneg(x)); add_comm(fzero(), y); add_zero(y);
}
pub proof fn neg_neg(a: F) ensures fneg(fneg(a)) == a {
    let n = fneg(a);
    add_neg(a); add_neg(n); add_assoc(a, n, fneg(n)); add_zero(a); add_comm(fzero(), fneg(n)); add_zero(fneg(n));
}
pub proof fn pow_add(a: F, m: nat, n: nat) ensures fpow(a, m + n) == fmul(fpow(a, m), fpow(a, n)) decreases n {
    if n == 0 { mul_one(fpow(a, m)); } else {
        pow_add(a, m, (n - 1) as nat);
        mul_assoc(fpow(a, m), fpow(a, (n - 1) as nat), a);
        assert((m + n - 1) as nat == m + ((n - 1) as nat));
    }
}
}
impl Copy for F {}
impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: F) ensures r == *self { *self } }
impl F {
    pub exec const ZERO: F ensures Self::ZERO == fzero() { F::zero_() }
    pub exec const ONE: F ensures Self::ONE == fone() { F::one_() }
    #[verifier::external_body] pub const fn zero_() -> (r: F) ensures r == fzero() { F{x:0} }
    #[verifier::external_body] pub const fn one_() -> (r: F) ensures r == fone() { F{x:1} }
    #[verifier::external_body] pub fn square(&self) -> (r: F) ensures r == fmul(*self, *self) { loop{} }
    #[verifier::external_body] pub fn double(&self) -> (r: F) ensures r == fadd(*self, *self) { loop{} }
}
impl NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { fneg(self) } }
impl Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> F { loop{} } }
"""
    for T, m, s in ops:
        for ref in (False, True):
            d, lt, g = ("*", "&'a F", "<'a>") if ref else ("", "F", "")
            out += f"""impl{g} {T}SpecImpl<{lt}> for F {{ open spec fn obeys_{m}_spec() -> bool {{ true }} open spec fn {m}_req(self, o: {lt}) -> bool {{ true }} open spec fn {m}_spec(self, o: {lt}) -> F {{ {s}(self, {d}o) }} }}
impl{g} {T}<{lt}> for F {{ type Output = F; #[verifier::external_body] fn {m}(self, o: {lt}) -> F {{ loop{{}} }} }}
impl{g} {T}AssignSpecImpl<{lt}> for F {{ open spec fn obeys_{m}_assign_spec() -> bool {{ true }} open spec fn {m}_assign_req(&self, o: {lt}) -> bool {{ true }} open spec fn {m}_assign_spec(&self, o: {lt}) -> &F {{ &{s}(*self, {d}o) }} }}
impl{g} {T}Assign<{lt}> for F {{ #[verifier::external_body] fn {m}_assign(&mut self, o: {lt}) {{ loop{{}} }} }}
"""
    return out + "}\n"


def prelude(specs):
    return "#![allow(unused)]\nuse vstd::prelude::*;\nverus! {\n" + field() + """
pub mod code {
use vstd::prelude::*;
use super::fl::*;
use super::fl::law::*;
""" + specs + "\n//@CODE\n}\n}\n"
