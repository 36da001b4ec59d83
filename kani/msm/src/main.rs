//! The scalar decomposition of the multi-scalar multiplication: `bucket_lookup` and the nested `get_at`,
//! copied from crates/ragu_arithmetic/src/util.rs into extracted.rs on every run.
#![allow(dead_code, unused)]
pub trait PrimeField {
    type Repr: AsRef<[u8]>;
}
mod extracted {
    use super::PrimeField;
    include!("extracted.rs");
}
mod proofs;
fn main() {
    kshim::main(proofs::TABLE);
}
