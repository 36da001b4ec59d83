//! Stand-in for `pasta_curves` (a git fork not obtainable offline): the Pasta
//! fields and curves with the trait surface ragu uses. The arithmetic is plain
//! Montgomery / Jacobian arithmetic; `hash_to_curve` is a deterministic
//! try-and-increment map (NOT the real simplified-SWU map). Trusted base.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;
pub mod arithmetic;
#[macro_use]
mod field;
#[macro_use]
mod curve;
pub use group;
pub use curve::{Ep, EpAffine, Eq, EqAffine};
pub use field::{Fp, Fq};
pub mod pallas { pub type Base = crate::Fp; pub type Scalar = crate::Fq; pub type Point = crate::Ep; pub type Affine = crate::EpAffine; }
pub mod vesta { pub type Base = crate::Fq; pub type Scalar = crate::Fp; pub type Point = crate::Eq; pub type Affine = crate::EqAffine; }
