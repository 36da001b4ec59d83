//! `bitreverse`, copied from crates/ragu_arithmetic/src/fft.rs into extracted.rs on every run.
#![allow(dead_code, unused)]
mod extracted {
    include!("extracted.rs");
}
mod proofs;
fn main() {
    kshim::main(proofs::TABLE);
}
