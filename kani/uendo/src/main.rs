#![allow(dead_code, unused)]
#[path = "/repo/crates/ragu_arithmetic/src/uendo.rs"]
pub mod uendo;
mod proofs;
fn main() {
    kshim::main(proofs::TABLE);
}
