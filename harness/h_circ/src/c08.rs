//! Contracts of the evaluators of s(X, Y).
use crate::Rng;
use crate::c09::shuffled;
use ragu_circuits::floor_planner::ConstraintSegment;
use crate::prog::{ALPHABET, Body, Builder, Prog, circuit_spec, letter, random};
use ragu_circuits::polynomials::{R, Rank};
use ragu_circuits::verif;
use ragu_core::Error;
use std::sync::Arc;
use vcd::{Contract, Model, contract};

type T = R<7>;

/// The object of a program with up to two outputs.
pub fn object<M: Model, K: Rank>(b: &Arc<Body<M>>) -> Result<verif::Obj<'static, M, K>, Error> {
    match b.outs.len() {
        0 => verif::object::<M, K, _>(Prog::<M, 0>(b.clone())),
        1 => verif::object::<M, K, _>(Prog::<M, 1>(b.clone())),
        2 => verif::object::<M, K, _>(Prog::<M, 2>(b.clone())),
        _ => verif::object::<M, K, _>(Prog::<M, 3>(b.clone())),
    }
}
pub fn agree<M: Model, K: Rank>(o: &verif::Obj<'_, M, K>, p: &[ConstraintSegment], x: M, y: M) {
    let v = o.sxy(x, y, p);
    M::check_eq(o.sx(x, p).eval(y), v, "s(x, Y) evaluated at y is s(x, y)");
    M::check_eq(o.sy(y, p).eval(x), v, "s(X, y) evaluated at x is s(x, y)");
}
fn one<M: Model>(b: &Arc<Body<M>>, x: M, y: M) {
    one_at::<M, T>(b, x, y, true)
}
fn one_at<M: Model, K: Rank>(b: &Arc<Body<M>>, x: M, y: M, values: bool) {
    let (segs, _) = circuit_spec(b, M::ZERO);
    let g: usize = segs.iter().map(|s| s.num_gates()).sum();
    let c: usize = segs.iter().map(|s| s.cons.len()).sum();
    match object::<M, K>(b) {
        Ok(o) => {
            M::check(g <= K::n() && c < K::num_coeffs(), "a circuit beyond the rank's capacity is rejected");
            M::check(o.counts() == (g, c), "the counts of gates and constraints are those of the circuit");
            if values {
                agree(&o, &o.plan(), x, y);
            }
        }
        Err(Error::GateBoundExceeded { limit }) => M::check(g > K::n() && limit == K::n(), "a circuit within the rank's capacity is accepted"),
        Err(Error::ConstraintBoundExceeded { limit }) => M::check(c >= K::num_coeffs() && limit == K::num_coeffs() - 1, "a circuit within the rank's capacity is accepted"),
        Err(_) => M::check(false, "a circuit within the rank's capacity is accepted"),
    }
}
fn xy<M: Model>() -> (M, M) {
    let (x, y) = (M::input("x"), M::input("y"));
    M::fork_only(&[x, y]);
    M::opaque_repr();
    (x, y)
}
/// All programs of the generic operations up to a length.
pub fn programs<M: Model>(len: usize, mut f: impl FnMut(Arc<Body<M>>)) {
    for n in 0..=len {
        for code in 0..ALPHABET.pow(n as u32) {
            let mut b = Builder::<M>::new(0);
            let mut c = code;
            for _ in 0..n {
                letter(&mut b, c % ALPHABET);
                c /= ALPHABET;
            }
            f(b.body(n.min(2)));
        }
    }
}
fn small_programs<M: Model>() {
    let (x, y) = xy::<M>();
    if M::SYMBOLIC {
        programs::<M>(crate::depth(3), |b| one(&b, x, y));
    } else {
        let mut r = Rng::chosen::<M>();
        let mut b = Builder::<M>::new(0);
        for _ in 0..r.below(5) {
            let k = r.below(ALPHABET);
            letter(&mut b, k);
        }
        let k = r.below(4);
        one(&b.body(k), x, y)
    }
}
fn random_programs<M: Model, K: Rank, const SHAPES: u64>() {
    let (x, y) = xy::<M>();
    let cases = if M::SYMBOLIC { (0..SHAPES * crate::depth(1) as u64).map(Rng).collect() } else { vec![Rng::chosen::<M>()] };
    for mut r in cases {
        let (n, k) = (r.below(14), r.below(4));
        let b = random::<M>(&mut r, n, 0, k, 3);
        one_at::<M, K>(&b, x, y, true);
        if let Ok(o) = object::<M, K>(&b) {
            agree(&o, &shuffled(&o, &mut r), x, y);
        }
    }
}
fn random_7<M: Model>() {
    random_programs::<M, R<7>, 300>()
}
fn random_13<M: Model>() {
    random_programs::<M, R<13>, 12>()
}
/// At and around the capacity limits.
fn capacity<M: Model>() {
    let (x, y) = xy::<M>();
    let (gs, cs): (Vec<usize>, Vec<usize>) = if M::SYMBOLIC { (vec![0, 1, 30, 31, 32, 33], vec![0, 1, 124, 125, 126, 127, 128, 129]) } else { (vec![crate::small::<M>("g", 6)], vec![crate::small::<M>("c", 8)]) };
    for g in &gs {
        for c in &cs {
            if M::SYMBOLIC && *g > 1 && *g < 31 && *c > 1 && *c < 125 {
                continue;
            }
            for o in [0, 1] {
                let mut b = Builder::<M>::new(0);
                for i in 0..*g {
                    letter(&mut b, i % 2);
                }
                for _ in 0..*c {
                    letter(&mut b, 5);
                }
                one_at::<M, T>(&b.body(o), x, y, !M::SYMBOLIC || g + c == 31)
            }
        }
    }
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C08", "programs of generic operations", "s::sxy::eval, s::sx::eval, s::sy::eval, metrics::eval, raw::orchestrate", small_programs, bound "all programs of up to 3 generic operations (nested routines included), all coefficients, x and y");
    contract!(v, "C08", "random programs", "s::sxy::eval, s::sx::eval, s::sy::eval, metrics::eval, raw::orchestrate", random_7, bound "300 program shapes with routines nested up to 3 deep, planned and arbitrary placements, all coefficients, x and y", weight 200);
    contract!(v, "C08", "random programs at the production rank", "s::sxy::eval, s::sx::eval, s::sy::eval, metrics::eval, raw::orchestrate", random_13, bound "12 program shapes with routines, rank 13, all coefficients, x and y", weight 4);
    contract!(v, "C08", "capacity limits", "into_circuit_object, s::sxy::eval, s::sx::eval, s::sy::eval", capacity, bound "counts around the limits of rank 7");
}
