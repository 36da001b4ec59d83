// Included at the end of ragu_pcd under `--cfg ragu_verif`: lets the contracts of /verif name
// crate-private items. Defines no behaviour of its own.
use crate::header::{Header, Suffix};
use crate::proof::{Pcd, Proof};
use crate::step::{Encoded, Index, Step, internal::padded};
use crate::Application;
use alloc::vec::Vec;
use ff::{Field, PrimeField};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::{Rank, sparse};
use ragu_circuits::registry::{CircuitIndex, Registry};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::Bound;
use ragu_core::Result;
use ragu_primitives::{Element, GadgetExt, io::Buffer};

pub use crate::internal::claims::{Builder, Source, sum_polynomials};
pub use crate::internal::fold_revdot;
pub use crate::internal::suffix::WithSuffix;
pub use crate::internal::transcript::{ResumedTranscript, Transcript, TranscriptState};
pub use crate::internal::{endoscalar, native, nested};
pub use crate::step::internal::adapter::TripleConstLen;

pub const TAG: &[u8] = crate::RAGU_TAG;
pub const NUM_INTERNAL_STEPS: usize = crate::step::NUM_INTERNAL_STEPS;
pub fn num_steps(points: usize) -> usize {
    endoscalar::num_steps(points)
}

pub fn fold<T: fold_revdot::Foldable<F>, F: Field>(items: &[T], s: F) -> T {
    fold_revdot::fold(items, s)
}

pub fn suffix(s: &Suffix) -> u64 {
    s.get()
}
pub fn internal_suffix(i: usize) -> Suffix {
    Suffix::internal(i)
}
pub fn padded_write<'dr, H: Header<D::F>, const N: usize, D: Driver<'dr, F: PrimeField>, B: Buffer<'dr, D>>(dr: &mut D, gadget: Bound<'dr, D, H::Output>, buf: &mut B) -> Result<()> {
    padded::for_header::<H, N, D>(dr, gadget)?.write(dr, buf)
}
pub fn encoded_write<'dr, D: Driver<'dr, F: PrimeField>, H: Header<D::F>, const N: usize>(e: Encoded<'dr, D, H, N>, dr: &mut D, buf: &mut Vec<Element<'dr, D>>) -> Result<()> {
    e.write(dr, buf)
}
pub fn encoded_uniform<'dr, D: Driver<'dr, F: PrimeField>, H: Header<D::F>, const N: usize>(dr: &mut D, data: DriverValue<D, H::Data>) -> Result<Encoded<'dr, D, H, N>> {
    Encoded::new_uniform(dr, data)
}
pub fn circuit_index(i: &Index, steps: usize) -> Result<CircuitIndex> {
    i.circuit_index(steps)
}
pub fn internal_circuit_index(i: usize, steps: usize) -> Result<CircuitIndex> {
    use crate::step::InternalStepIndex::*;
    Index::internal(if i == 0 { Rerandomize } else { Trivial }).circuit_index(steps)
}
pub fn assert_index(i: &Index, expect: usize) -> Result<()> {
    i.assert_index(expect)
}

pub fn trivial<C: Cycle, R: Rank, const N: usize>(app: &Application<'_, C, R, N>) -> Proof<C, R> {
    app.trivial_proof()
}
pub fn into_parts<C: Cycle, R: Rank, H: Header<C::CircuitField>>(p: Pcd<C, R, H>) -> (Proof<C, R>, H::Data) {
    p.into_parts()
}
pub fn registry<'a, 'p, C: Cycle, R: Rank, const N: usize>(app: &'a Application<'p, C, R, N>) -> &'a Registry<'p, C::CircuitField, R> {
    &app.native_registry
}

pub fn nested_registry<'a, 'p, C: Cycle, R: Rank, const N: usize>(app: &'a Application<'p, C, R, N>) -> &'a Registry<'p, C::ScalarField, R> {
    &app.nested_registry
}
/// Every stored polynomial of a proof with its stored commitment.
#[allow(clippy::type_complexity)]
pub fn pairs<C: Cycle, R: Rank>(p: &Proof<C, R>) -> (Vec<(&'static str, &sparse::Polynomial<C::CircuitField, R>, C::HostCurve)>, Vec<(&'static str, &sparse::Polynomial<C::ScalarField, R>, C::NestedCurve)>) {
    macro_rules! rx {
        ($($n:literal $($f:ident).+;)*) => { alloc::vec![$(($n, &p.$($f).+.rx, p.$($f).+.commitment)),*] };
    }
    let mut v = rx! {
        "application" application.rx_triple;
        "hashes_1" circuits.hashes_1;
        "hashes_2" circuits.hashes_2;
        "inner_collapse" circuits.inner_collapse;
        "outer_collapse" circuits.outer_collapse;
        "compute_v" circuits.compute_v;
        "preamble" preamble.native;
        "inner_error" inner_error.native.rx_triple;
        "outer_error" outer_error.native;
        "query" query.native.rx_triple;
        "eval" eval.native;
    };
    v.push(("a", &p.ab.native.a_poly, p.ab.native.a_commitment));
    v.push(("b", &p.ab.native.b_poly, p.ab.native.b_commitment));
    v.push(("registry_wx0", &p.s_prime.native.registry_wx0_poly, p.s_prime.native.registry_wx0_commitment));
    v.push(("registry_wx1", &p.s_prime.native.registry_wx1_poly, p.s_prime.native.registry_wx1_commitment));
    v.push(("registry_wy", &p.inner_error.native.registry_wy_poly, p.inner_error.native.registry_wy_commitment));
    v.push(("registry_xy", &p.query.native.registry_xy_poly, p.query.native.registry_xy_commitment));
    v.push(("f", &p.f.native.poly, p.f.native.commitment));
    v.push(("p", &p.p.native.poly, p.p.native.commitment));
    let b = rx! {
        "preamble" preamble.bridge;
        "s_prime" s_prime.bridge;
        "inner_error" inner_error.bridge;
        "outer_error" outer_error.bridge;
        "ab" ab.bridge;
        "query" query.bridge;
        "f" f.bridge;
        "eval" eval.bridge;
    };
    (v, b)
}

/// Every stored part of a proof, by kind.
pub struct Parts<'a, C: Cycle, R: Rank> {
    pub circuit_id: &'a mut CircuitIndex,
    pub headers: [&'a mut Vec<C::CircuitField>; 2],
    /// in the order of `native::RxIndex`
    pub rx: Vec<(&'static str, &'a mut sparse::Polynomial<C::CircuitField, R>, &'a mut C::HostCurve)>,
    pub a: &'a mut sparse::Polynomial<C::CircuitField, R>,
    pub b: &'a mut sparse::Polynomial<C::CircuitField, R>,
    pub c: &'a mut C::CircuitField,
    pub registry_xy: &'a mut sparse::Polynomial<C::CircuitField, R>,
    pub p: &'a mut sparse::Polynomial<C::CircuitField, R>,
    pub p_commitment: &'a mut C::HostCurve,
    pub v: &'a mut C::CircuitField,
    pub challenges: Vec<(&'static str, &'a mut C::CircuitField)>,
    pub bridges: Vec<(&'static str, &'a mut sparse::Polynomial<C::ScalarField, R>, &'a mut C::NestedCurve)>,
    pub steps: &'a mut Vec<sparse::Polynomial<C::ScalarField, R>>,
    pub endoscalar: &'a mut sparse::Polynomial<C::ScalarField, R>,
    pub points: &'a mut sparse::Polynomial<C::ScalarField, R>,
}
pub fn parts<C: Cycle, R: Rank>(p: &mut Proof<C, R>) -> Parts<'_, C, R> {
    macro_rules! rx {
        ($($n:literal $($f:ident).+;)*) => { alloc::vec![$(($n, &mut p.$($f).+.rx, &mut p.$($f).+.commitment)),*] };
    }
    macro_rules! ch {
        ($($f:ident)*) => { alloc::vec![$((stringify!($f), &mut p.challenges.$f)),*] };
    }
    Parts {
        circuit_id: &mut p.application.circuit_id,
        headers: [&mut p.application.left_header, &mut p.application.right_header],
        rx: rx! {
            "application" application.rx_triple;
            "hashes_1" circuits.hashes_1;
            "hashes_2" circuits.hashes_2;
            "inner_collapse" circuits.inner_collapse;
            "outer_collapse" circuits.outer_collapse;
            "compute_v" circuits.compute_v;
            "preamble" preamble.native;
            "inner_error" inner_error.native.rx_triple;
            "outer_error" outer_error.native;
            "query" query.native.rx_triple;
            "eval" eval.native;
        },
        a: &mut p.ab.native.a_poly,
        b: &mut p.ab.native.b_poly,
        c: &mut p.ab.native.c,
        registry_xy: &mut p.query.native.registry_xy_poly,
        p: &mut p.p.native.poly,
        p_commitment: &mut p.p.native.commitment,
        v: &mut p.p.native.v,
        challenges: ch!(w y z mu nu mu_prime nu_prime x alpha u pre_beta),
        bridges: rx! {
            "preamble" preamble.bridge;
            "s_prime" s_prime.bridge;
            "inner_error" inner_error.bridge;
            "outer_error" outer_error.bridge;
            "ab" ab.bridge;
            "query" query.bridge;
            "f" f.bridge;
            "eval" eval.bridge;
        },
        steps: &mut p.p.nested.step_rxs,
        endoscalar: &mut p.p.nested.endoscalar_rx,
        points: &mut p.p.nested.points_rx,
    }
}
/// The application's own record of the step that made a proof.
pub fn circuit_of<C: Cycle, R: Rank>(p: &Proof<C, R>) -> CircuitIndex {
    p.application.circuit_id
}

/// What the circuit wrapping a step outputs, and the left header, right header and data it reports.
#[allow(clippy::type_complexity)]
pub fn adapter_witness<'dr, 's: 'dr, C: Cycle, S: Step<C> + 'dr, R: Rank + 'dr, const N: usize, D: Driver<'dr, F = C::CircuitField>>(
    step: S,
    dr: &mut D,
    witness: DriverValue<D, (<S::Left as Header<C::CircuitField>>::Data, <S::Right as Header<C::CircuitField>>::Data, S::Witness<'s>)>,
) -> Result<(Vec<Element<'dr, D>>, DriverValue<D, (Vec<C::CircuitField>, Vec<C::CircuitField>, <S::Output as Header<C::CircuitField>>::Data)>)> {
    use ragu_circuits::Circuit;
    use ragu_core::maybe::Maybe;
    let a = crate::step::internal::adapter::Adapter::<C, S, R, N>::new(step);
    let (out, aux) = a.witness(dr, witness)?.into_parts();
    Ok((out.into_inner(), aux.map(|((l, r), d, _)| (l.into_inner(), r.into_inner(), d))))
}
