//! Stages and multi-stage circuits used by the contracts.
use ragu_circuits::polynomials::Rank;
use ragu_circuits::staging::{MultiStage, MultiStageCircuit, Stage, StageBuilder};
use ragu_circuits::{BondingObject, WithAux};
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_primitives::{Boolean, Element};
use ragu_primitives::vec::{ConstLen, FixedVec};
use std::marker::PhantomData;
use std::sync::Arc;
use vcd::Model;

use crate::prog::{Body, drive};

/// A stage of declared size V that writes W elements, after the stage P.
#[derive(Clone, Copy)]
pub struct S<const V: usize, const W: usize, P = ()>(PhantomData<fn() -> P>);
impl<const V: usize, const W: usize, P> Default for S<V, W, P> {
    fn default() -> Self {
        S(PhantomData)
    }
}
impl<const V: usize, const W: usize, P: Stage<M, K>, M: Model, K: Rank> Stage<M, K> for S<V, W, P> {
    type Parent = P;
    type Witness<'s> = Vec<M>;
    type OutputKind = Kind![M; FixedVec<Element<'_, _>, ConstLen<W>>];
    fn values() -> usize {
        V
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, dr: &mut D, w: DriverValue<D, Vec<M>>) -> Result<Bound<'dr, D, Self::OutputKind>>
    where
        Self: 'dr,
    {
        FixedVec::new((0..W).map(|i| Element::alloc(dr, w.as_ref().map(|v| v[i]))).collect::<Result<_>>()?)
    }
}

/// A program as a multi-stage circuit without stages (what bonding objects are made of).
#[derive(Clone)]
pub struct Plain<M: Model, K>(pub Arc<Body<M>>, pub PhantomData<fn() -> K>);
impl<M: Model, K: Rank> MultiStageCircuit<M, K> for Plain<M, K> {
    type Last = ();
    type Instance<'s> = ();
    type Witness<'s> = ();
    type Output = ();
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<()>
    where
        Self: 'dr,
    {
        Ok(())
    }
    fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, b: StageBuilder<'a, 'dr, D, K, (), ()>, w: DriverValue<D, ()>) -> Result<WithAux<(), DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        drive(b.finish(), &self.0, vec![])?;
        Ok(WithAux::new((), w))
    }
}
pub fn bonding<M: Model, K: Rank>(b: &Arc<Body<M>>) -> Result<BondingObject<'static, M, K>> {
    MultiStage::<M, K, _>::new(Plain(b.clone(), PhantomData)).into_bonding_object()
}

/// A program over the outputs of a chain of stages. MODE: 0 unenforced, 1 enforced, 2 the first stage skipped.
#[derive(Clone)]
pub struct Staged<M: Model, K, L, const O: usize>(pub Arc<Body<M>>, pub u8, pub PhantomData<fn() -> (K, L)>);
macro_rules! staged {
    ($last:ty, $o:literal, |$b:ident, $w:ident, $mode:ident, $dr:ident| $go:block) => {
        impl<M: Model, K: Rank> MultiStageCircuit<M, K> for Staged<M, K, $last, $o> {
            type Last = $last;
            type Instance<'s> = Vec<M>;
            type Witness<'s> = Vec<Vec<M>>;
            type Output = Kind![M; FixedVec<Element<'_, _>, ConstLen<$o>>];
            type Aux<'s> = ();
            fn instance<'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, dr: &mut D, i: DriverValue<D, Vec<M>>) -> Result<Bound<'dr, D, Self::Output>>
            where
                Self: 'dr,
            {
                FixedVec::new((0..$o).map(|k| Element::alloc(dr, i.as_ref().map(|v| v[k]))).collect::<Result<_>>()?)
            }
            fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, $b: StageBuilder<'a, 'dr, D, K, (), $last>, $w: DriverValue<D, Vec<Vec<M>>>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>>
            where
                Self: 'dr,
            {
                let $mode = self.1;
                let (ins, $dr) = $go;
                let out = FixedVec::new(drive($dr, &self.0, ins)?.into_iter().map(|(w, v)| Element::promote(w, v)).collect())?;
                Ok(WithAux::new(out, D::just(|| ())))
            }
        }
    };
}
macro_rules! guard {
    ($g:ident, $dr:ident, $w:ident, $k:literal, $mode:ident, $ins:ident) => {
        let w = $w.as_ref().map(|v| v[$k].clone());
        let out = if $mode == 1 { $g.enforced($dr, w)? } else { $g.unenforced($dr, w)? };
        $ins.extend(out.iter().map(|e| (e.wire().clone(), e.value().map(|v| *v))));
    };
}
pub type A1 = S<3, 3>;
pub type A2 = S<5, 2, A1>;
pub type A3 = S<0, 0, A2>;
pub type A4 = S<4, 4, A3>;
pub type B1 = S<1, 0>;
pub type B2 = S<6, 5, B1>;
staged!(A1, 1, |b, w, mode, dr| {
    let (g, b) = b.add_stage::<A1>()?;
    let dr = b.finish();
    let mut ins = vec![];
    guard!(g, dr, w, 0, mode, ins);
    (ins, dr)
});
staged!(A4, 2, |b, w, mode, dr| {
    let (b, g1) = if mode == 2 {
        (b.skip_stage::<A1>()?, None)
    } else {
        let (g, b) = b.add_stage::<A1>()?;
        (b, Some(g))
    };
    let (g2, b) = b.configure_stage(A2::default())?;
    let b = b.skip_stage::<A3>()?;
    let (g4, b) = b.add_stage::<A4>()?;
    let dr = b.finish();
    let mut ins = vec![];
    // the order of use is not the order of placement
    guard!(g4, dr, w, 3, mode, ins);
    if let Some(g1) = g1 {
        guard!(g1, dr, w, 0, mode, ins);
    }
    guard!(g2, dr, w, 1, mode, ins);
    (ins, dr)
});
staged!(B2, 0, |b, w, mode, dr| {
    let (g1, b) = b.add_stage::<B1>()?;
    let (g2, b) = b.add_stage::<B2>()?;
    let dr = b.finish();
    let mut ins = vec![];
    guard!(g1, dr, w, 0, mode, ins);
    guard!(g2, dr, w, 1, mode, ins);
    (ins, dr)
});
/// Two Booleans after a stage of one value, and a circuit that uses them (or does not).
#[derive(Clone, Copy, Default)]
pub struct Bits;
impl<M: Model, K: Rank> Stage<M, K> for Bits {
    type Parent = A1;
    type Witness<'s> = [bool; 2];
    type OutputKind = Kind![M; FixedVec<Boolean<'_, _>, ConstLen<2>>];
    fn values() -> usize {
        2
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, dr: &mut D, w: DriverValue<D, [bool; 2]>) -> Result<Bound<'dr, D, Self::OutputKind>>
    where
        Self: 'dr,
    {
        FixedVec::new((0..2).map(|i| Boolean::alloc(dr, w.as_ref().map(|v| v[i]))).collect::<Result<_>>()?)
    }
}
#[derive(Clone)]
pub struct UseBits(pub bool);
impl<M: Model, K: Rank> MultiStageCircuit<M, K> for UseBits {
    type Last = Bits;
    type Instance<'s> = ();
    type Witness<'s> = [bool; 2];
    type Output = ();
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<()>
    where
        Self: 'dr,
    {
        Ok(())
    }
    fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, b: StageBuilder<'a, 'dr, D, K, (), Bits>, w: DriverValue<D, [bool; 2]>) -> Result<WithAux<(), DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        let b = b.skip_stage::<A1>()?;
        let (g, b) = b.add_stage::<Bits>()?;
        let dr = b.finish();
        if self.0 {
            g.enforced(dr, w)?;
        } else {
            g.unenforced(dr, w)?;
        }
        Ok(WithAux::new((), D::just(|| ())))
    }
}
