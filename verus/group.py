"""The abstract commutative group over which extracted multi-scalar code is verified."""


def group():
    out = """
pub mod gr {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
/// points in affine and in projective form; both denote elements of one commutative group
#[verifier::external_body] pub struct A { x: u64 }
#[verifier::external_body] pub struct G { x: u64 }
pub uninterp spec fn pt(a: A) -> G;
pub uninterp spec fn gadd(a: G, b: G) -> G;
pub uninterp spec fn gzero() -> G;
pub open spec fn smul(n: nat, g: G) -> G decreases n { if n == 0 { gzero() } else { gadd(smul((n - 1) as nat, g), g) } }
pub mod glaw {
use super::*;
pub axiom fn gcomm(a: G, b: G) ensures gadd(a, b) == gadd(b, a);
pub axiom fn gassoc(a: G, b: G, c: G) ensures gadd(gadd(a, b), c) == gadd(a, gadd(b, c));
pub axiom fn gid(a: G) ensures gadd(a, gzero()) == a;
pub proof fn gadd4(a: G, b: G, c: G, d: G) ensures gadd(gadd(a, b), gadd(c, d)) == gadd(gadd(a, c), gadd(b, d)) {
    gassoc(a, b, gadd(c, d)); gassoc(b, c, d); gcomm(b, c); gassoc(c, b, d); gassoc(a, c, gadd(b, d));
}
pub proof fn smul_add(m: nat, n: nat, g: G) ensures smul(m + n, g) == gadd(smul(m, g), smul(n, g)) decreases n {
    if n == 0 { gid(smul(m, g)); } else {
        smul_add(m, (n - 1) as nat, g);
        assert((m + n - 1) as nat == m + ((n - 1) as nat));
        gassoc(smul(m, g), smul((n - 1) as nat, g), g);
    }
}
pub proof fn smul_dist(n: nat, a: G, b: G) ensures smul(n, gadd(a, b)) == gadd(smul(n, a), smul(n, b)) decreases n {
    if n == 0 { gid(gzero()); } else {
        smul_dist((n - 1) as nat, a, b);
        gadd4(smul((n - 1) as nat, a), smul((n - 1) as nat, b), a, b);
    }
}
pub proof fn smul_mul(m: nat, n: nat, g: G) ensures smul(m * n, g) == smul(m, smul(n, g)) decreases m {
    if m == 0 { assert(m * n == 0); } else {
        smul_mul((m - 1) as nat, n, g);
        assert(m * n == (m - 1) * n + n) by (nonlinear_arith);
        smul_add(((m - 1) * n) as nat, n, g);
    }
}
pub proof fn smul_zero(n: nat) ensures smul(n, gzero()) == gzero() decreases n { if n > 0 { smul_zero((n - 1) as nat); gid(gzero()); } }
pub proof fn smul_two(g: G) ensures smul(2, g) == gadd(g, g) { reveal_with_fuel(smul, 3); gcomm(gzero(), g); gid(g); }
pub proof fn smul_one(g: G) ensures smul(1, g) == g { reveal_with_fuel(smul, 2); gcomm(gzero(), g); gid(g); }
}
impl Copy for A {}
impl Clone for A { #[verifier::external_body] fn clone(&self) -> (r: A) ensures r == *self { *self } }
impl Copy for G {}
impl Clone for G { #[verifier::external_body] fn clone(&self) -> (r: G) ensures r == *self { *self } }
impl G {
    #[verifier::external_body] pub fn identity() -> (r: G) ensures r == gzero() { loop{} }
    #[verifier::external_body] pub fn double(&self) -> (r: G) ensures r == gadd(*self, *self) { loop{} }
}
"""
    val = {"A": "pt({})", "G": "{}"}
    for lhs in ("A", "G"):
        for rhs in ("A", "G"):
            for ref in (False, True):
                lt, g = (f"&'a {rhs}", "<'a>") if ref else (rhs, "")
                o = val[rhs].format("*o" if ref else "o")
                out += f"""impl{g} AddSpecImpl<{lt}> for {lhs} {{ open spec fn obeys_add_spec() -> bool {{ true }} open spec fn add_req(self, o: {lt}) -> bool {{ true }} open spec fn add_spec(self, o: {lt}) -> G {{ gadd({val[lhs].format("self")}, {o}) }} }}
impl{g} Add<{lt}> for {lhs} {{ type Output = G; #[verifier::external_body] fn add(self, o: {lt}) -> G {{ loop{{}} }} }}
"""
                if lhs == "G":
                    out += f"""impl{g} AddAssignSpecImpl<{lt}> for G {{ open spec fn obeys_add_assign_spec() -> bool {{ true }} open spec fn add_assign_req(&self, o: {lt}) -> bool {{ true }} open spec fn add_assign_spec(&self, o: {lt}) -> &G {{ &gadd(*self, {o}) }} }}
impl{g} AddAssign<{lt}> for G {{ #[verifier::external_body] fn add_assign(&mut self, o: {lt}) {{ loop{{}} }} }}
"""
    return out + "}\n"
