#![allow(dead_code, unused)]
extern crate alloc;
#[path = "/repo/crates/ragu_pcd/src/header.rs"]
pub mod header;
mod proofs;
fn main() {
    kshim::main(proofs::TABLE);
}
