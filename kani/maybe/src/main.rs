#![allow(dead_code, unused)]
extern crate alloc;
#[path = "/repo/crates/ragu_core/src/errors.rs"]
mod errors;
pub use errors::{Error, Result};
#[path = "/repo/crates/ragu_core/src/maybe/mod.rs"]
pub mod maybe;
mod proofs;
fn main() {
    kshim::main(proofs::TABLE);
}
