// Included at the end of ragu_circuits under `--cfg ragu_verif`: lets the contracts of /verif name
// crate-private items. Defines no behaviour of its own.
#[allow(unused)]
use crate::floor_planner::ConstraintSegment;
use crate::polynomials::{Rank, sparse};
use crate::raw::CircuitAdapter;
use crate::{BondingObject, Circuit, CircuitObject, SegmentRecord};
use alloc::boxed::Box;
use alloc::vec::Vec;
use ff::{Field, FromUniformBytes};
use ragu_core::Result;

pub struct Obj<'a, F: Field, R: Rank>(Box<dyn CircuitObject<F, R> + 'a>);

pub fn object<'a, F: FromUniformBytes<64>, R: Rank, C: Circuit<F> + 'a>(c: C) -> Result<Obj<'a, F, R>> {
    crate::into_circuit_object(c).map(Obj)
}
pub fn mask<'a, F: Field, R: Rank>(skip: usize, num: usize) -> Result<Obj<'a, F, R>> {
    Ok(Obj(Box::new(crate::staging::mask::StageMask::<R>::new(skip, num)?)))
}
pub fn mask_final<'a, F: Field, R: Rank>(skip: usize) -> Result<Obj<'a, F, R>> {
    Ok(Obj(Box::new(crate::staging::mask::StageMask::<R>::new_final(skip)?)))
}
pub fn bonding<'a, F: Field, R: Rank>(b: BondingObject<'a, F, R>) -> Obj<'a, F, R> {
    Obj(b.into_inner())
}
impl<'a, F: Field, R: Rank> Obj<'a, F, R> {
    pub fn plan(&self) -> Vec<ConstraintSegment> {
        crate::floor_planner::floor_plan(self.0.segment_records())
    }
    pub fn records(&self) -> &[SegmentRecord] {
        self.0.segment_records()
    }
    pub fn counts(&self) -> (usize, usize) {
        self.0.constraint_counts()
    }
    pub fn sxy(&self, x: F, y: F, p: &[ConstraintSegment]) -> F {
        self.0.sxy(x, y, p)
    }
    pub fn sx(&self, x: F, p: &[ConstraintSegment]) -> sparse::Polynomial<F, R> {
        self.0.sx(x, p)
    }
    pub fn sy(&self, y: F, p: &[ConstraintSegment]) -> sparse::Polynomial<F, R> {
        self.0.sy(y, p)
    }
}
/// (gate start, constraint start, gates, constraints)
pub fn segment(s: &ConstraintSegment) -> [usize; 4] {
    [s.gate_start, s.constraint_start, s.num_gates, s.num_constraints]
}
pub fn make_segment(v: [usize; 4]) -> ConstraintSegment {
    ConstraintSegment { gate_start: v[0], constraint_start: v[1], num_gates: v[2], num_constraints: v[3] }
}
/// None for the root segment.
pub fn fingerprint(r: &SegmentRecord) -> Option<crate::RoutineFingerprint> {
    match r.identity() {
        crate::RoutineIdentity::Root => None,
        crate::RoutineIdentity::Routine(f) => Some(*f),
    }
}
pub fn trace_segments<F: Clone>(t: &crate::Trace<F>) -> Vec<[Vec<F>; 4]> {
    t.segments.iter().map(|s| [s.a.clone(), s.b.clone(), s.c.clone(), s.d.clone()]).collect()
}
pub fn assemble<F: Field, R: Rank>(t: &crate::Trace<F>, p: &[ConstraintSegment], alpha: F) -> Result<sparse::Polynomial<F, R>> {
    t.assemble(p, alpha)
}
pub fn eval_sx<F: Field, R: Rank, C: Circuit<F>>(c: C, x: F, p: &[ConstraintSegment]) -> Result<sparse::Polynomial<F, R>> {
    crate::s::sx::eval(&CircuitAdapter(c), x, p)
}
pub fn eval_sy<F: Field, R: Rank, C: Circuit<F>>(c: C, y: F, p: &[ConstraintSegment]) -> Result<sparse::Polynomial<F, R>> {
    crate::s::sy::eval(&CircuitAdapter(c), y, p)
}
pub fn eval_sxy<F: Field, R: Rank, C: Circuit<F>>(c: C, x: F, y: F, p: &[ConstraintSegment]) -> Result<F> {
    crate::s::sxy::eval::<_, _, R>(&CircuitAdapter(c), x, y, p)
}
