//! Contracts tying the trace to s(X, Y), t(X, Z) and k(Y): every gate and every constraint is enforced.
use crate::Rng;
use crate::c08::{object, programs};
use crate::power;
use crate::prog::{ALPHABET, Body, Builder, Prog, Seg, circuit_spec, letter, random};
use ragu_circuits::polynomials::{R, Rank, sparse};
use ragu_circuits::{CircuitExt, Trace, verif};
use ragu_circuits::polynomials::txz::Evaluate;
use ragu_core::Error;
use ragu_core::drivers::Driver;
use ragu_core::maybe::Maybe;
use ragu_primitives::Element;
use std::sync::Arc;
use vcd::{Contract, Model, Vc, contract};

type T = R<7>;

pub fn trace<M: Model>(b: &Arc<Body<M>>) -> (Trace<M>, u32) {
    match b.outs.len() {
        0 => Prog::<M, 0>(b.clone()).trace(9).unwrap().into_parts(),
        1 => Prog::<M, 1>(b.clone()).trace(9).unwrap().into_parts(),
        2 => Prog::<M, 2>(b.clone()).trace(9).unwrap().into_parts(),
        _ => Prog::<M, 3>(b.clone()).trace(9).unwrap().into_parts(),
    }
}
pub fn ky<M: Model>(b: &Arc<Body<M>>, outs: Vec<M>, y: M) -> M {
    match b.outs.len() {
        0 => Prog::<M, 0>(b.clone()).ky(outs, y).unwrap(),
        1 => Prog::<M, 1>(b.clone()).ky(outs, y).unwrap(),
        2 => Prog::<M, 2>(b.clone()).ky(outs, y).unwrap(),
        _ => Prog::<M, 3>(b.clone()).ky(outs, y).unwrap(),
    }
}
/// The gates of a trace polynomial: a at 2n+i, b at 2n-1-i, c at i, d at 4n-1-i.
pub fn gates<M: Model, K: Rank>(r: &sparse::Polynomial<M, K>) -> Vec<[M; 4]> {
    let c: Vec<M> = r.iter_coeffs().collect();
    let n = K::n();
    (0..n).map(|i| [c[2 * n + i], c[2 * n - 1 - i], c[i], c[4 * n - 1 - i]]).collect()
}
/// Are these the same rows, in any order? Allocations may be placed in any free slot of a (0, b, 0, d) gate.
fn same_rows<M: Model>(got: &[[M; 4]], want: &Seg<M>) -> bool {
    let mut left: Vec<[M; 4]> = got.to_vec();
    for g in &want.gates {
        match left.iter().position(|x| x == g) {
            Some(k) => drop(left.remove(k)),
            None => return false,
        }
    }
    if left.iter().any(|g| g[0] != M::ZERO || g[2] != M::ZERO) {
        return false;
    }
    let mut vals: Vec<M> = left.iter().flat_map(|g| [g[1], g[3]]).collect();
    for a in &want.allocs {
        match vals.iter().position(|x| x == a) {
            Some(k) => drop(vals.remove(k)),
            None => return false,
        }
    }
    vals.iter().all(|x| *x == M::ZERO)
}
/// Some other placement of the planner's segments: root first, the rest in any order, no gaps.
pub fn shuffled<M: Model, K: Rank>(o: &verif::Obj<'_, M, K>, r: &mut Rng) -> Vec<ragu_circuits::floor_planner::ConstraintSegment> {
    let mut p: Vec<[usize; 4]> = o.plan().iter().map(verif::segment).collect();
    for which in [0, 1] {
        let size = which + 2;
        let mut order: Vec<usize> = (1..p.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
        let mut at = p[0][size];
        for k in order {
            p[k][which] = at;
            at += p[k][size];
        }
    }
    p.into_iter().map(verif::make_segment).collect()
}
pub fn one<M: Model, K: Rank>(b: &Arc<Body<M>>, y: M, z: M, alpha: M, mv: Option<&mut Rng>) {
    let Ok(o) = object::<M, K>(b) else { return };
    let p = match mv {
        None => o.plan(),
        Some(r) => shuffled(&o, r),
    };
    let (t, aux) = trace(b);
    M::check(aux == 9, "the auxiliary data comes through");
    let r: sparse::Polynomial<M, K> = match verif::assemble(&t, &p, alpha) {
        Ok(r) => r,
        Err(_) => return M::check(false, "the trace of an accepted circuit assembles"),
    };
    let (segs, outs) = circuit_spec(b, alpha);
    let g = gates(&r);
    let mut rows = vec![];
    for (k, s) in segs.iter().enumerate() {
        let [gs, cs, ng, nc] = verif::segment(&p[k]);
        M::check(ng == s.num_gates() && nc == s.cons.len(), "each segment has the circuit's gates and constraints");
        M::check(same_rows(&g[gs..gs + ng], s), "each segment's gates carry exactly the values the circuit assigned");
        rows.extend(gs..gs + ng);
        let _ = cs;
    }
    M::check((0..K::n()).all(|i| rows.contains(&i) || g[i] == [M::ZERO; 4]), "gates outside all segments are zero");
    M::check(g[0] == [M::ZERO, M::ONE, M::ZERO, alpha], "gate 0 is (0, 1, 0, alpha)");

    // <r, r(zX) + s(X, y) + t(X, z)> = gates + constraints
    let mut rhs = r.clone();
    rhs.dilate(z);
    rhs.add_assign(&o.sy(y, &p));
    rhs.add_assign(&K::tz(z));
    let n = K::n();
    let mut want = M::ZERO;
    for (i, [a, b, c, d]) in g.iter().enumerate() {
        let (zi, zl) = (power(z, (2 * n + i) as u128), power(z, (2 * n - 1 - i) as u128));
        want += (*a * *b - *c) * (zi + zl);
        want += *c * *d * (power(z, i as u128) + power(z, (4 * n - 1 - i) as u128));
    }
    let mut cons = M::ZERO;
    for (k, s) in segs.iter().enumerate() {
        let [_, cs, _, nc] = verif::segment(&p[k]);
        for (j, e) in s.cons.iter().enumerate() {
            cons += power(y, (cs + nc - 1 - j) as u128) * *e;
        }
    }
    let all: Vec<[usize; 4]> = p.iter().map(verif::segment).collect();
    let mut pos: Vec<usize> = all.iter().flat_map(|s| s[1]..s[1] + s[3]).collect();
    pos.sort();
    pos.dedup();
    M::check(pos.len() == all.iter().map(|s| s[3]).sum::<usize>(), "no two constraints share a power of Y");
    M::check_eq(r.revdot(&rhs), want + cons, "the revdot claim is the combination of every gate (by powers of z) and every constraint (by its own power of y)");
    // k(Y)
    let k = ky(b, outs.clone(), y);
    let horner = outs.iter().chain([&M::ONE]).fold(M::ZERO, |acc, o| acc * y + *o);
    M::check_eq(k, horner, "k(y): the outputs from the highest power of y down, then 1");
    let public: M = segs[0].cons.iter().rev().take(outs.len() + 1).enumerate().fold(M::ZERO, |a, (j, e)| a + power(y, j as u128) * *e);
    M::check_eq(k, public, "the output and ONE constraints, at the lowest powers of y, sum to k(y)");
}
fn yza<M: Model>() -> (M, M, M) {
    let (y, z, a) = (M::input("y"), M::input("z"), M::input("alpha"));
    M::fork_only(&[y, z]);
    M::opaque_repr();
    (y, z, a)
}
fn small_programs<M: Model>() {
    let (y, z, a) = yza::<M>();
    if M::SYMBOLIC {
        programs::<M>(crate::depth(3), |b| one::<M, T>(&b, y, z, a, None));
    } else {
        let mut r = Rng::chosen::<M>();
        let mut b = Builder::<M>::new(0);
        for _ in 0..r.below(5) {
            let k = r.below(ALPHABET);
            letter(&mut b, k);
        }
        let k = r.below(4);
        one::<M, T>(&b.body(k), y, z, a, None)
    }
}
fn random_programs<M: Model, K: Rank, const SHAPES: u64>() {
    let (y, z, a) = yza::<M>();
    let cases = if M::SYMBOLIC { (0..SHAPES * crate::depth(1) as u64).map(|s| Rng(1000 + s)).collect() } else { vec![Rng::chosen::<M>()] };
    for mut r in cases {
        let (n, k) = (r.below(14), r.below(4));
        let b = random::<M>(&mut r, n, 0, k, 3);
        one::<M, K>(&b, y, z, a, None);
        one::<M, K>(&b, y, z, a, Some(&mut r));
    }
}
fn random_7<M: Model>() {
    random_programs::<M, R<7>, 300>()
}
fn random_13<M: Model>() {
    random_programs::<M, R<13>, 12>()
}
/// t(X, z) cancels the gate equation for every assignment of the wires.
fn gate_identity<M: Model, K: Rank>() {
    let (_, z, _) = yza::<M>();
    let n = K::n();
    let count = if M::SYMBOLIC { n.min(128) } else { crate::small::<M>("count", 6).min(n) };
    let w: Vec<[M; 4]> = (0..count).map(|_| std::array::from_fn(|_| M::input("w"))).collect();
    let mut v = sparse::View::<M, K, _>::trace();
    for g in &w {
        v.a.push(g[0]);
        v.b.push(g[1]);
        v.c.push(g[2]);
        v.d.push(g[3]);
    }
    let r = v.build();
    let mut rhs = r.clone();
    rhs.dilate(z);
    rhs.add_assign(&K::tz(z));
    let p = |e: usize| power(z, e as u128);
    let mut want = M::ZERO;
    for (i, w) in w.iter().enumerate() {
        want += (w[0] * w[1] - w[2]) * (p(2 * n + i) + p(2 * n - 1 - i)) + w[2] * w[3] * (p(i) + p(4 * n - 1 - i));
    }
    M::check_eq(r.revdot(&rhs), want, "gate i contributes (ab - c)(z^(2n+i) + z^(2n-1-i)) + cd(z^i + z^(4n-1-i))");
}
fn gates_7<M: Model>() {
    gate_identity::<M, R<7>>()
}
fn gates_13<M: Model>() {
    gate_identity::<M, R<13>>()
}
fn too_long<M: Model>() {
    let (y, z, a) = yza::<M>();
    for g in [30usize, 31, 32, 33, 40] {
        let mut b = Builder::<M>::new(0);
        for i in 0..g {
            letter(&mut b, i % 2);
        }
        let b = b.body(1);
        let (t, _) = trace(&b);
        let rows = verif::trace_segments(&t)[0][0].len();
        let plan = [verif::make_segment([0, 0, rows, 1])];
        match verif::assemble::<M, T>(&t, &plan, a) {
            Ok(_) => M::check(rows == g + 1 && rows <= T::n(), "a trace within n gates assembles, a longer one is an error"),
            Err(Error::GateBoundExceeded { limit }) => M::check(rows > T::n() && limit == T::n(), "a trace within n gates assembles, a longer one is an error"),
            Err(_) => M::check(false, "a trace within n gates assembles, a longer one is an error"),
        }
    }
    let _ = (y, z);
}
/// Assembly under any placement of the segments.
fn placement<M: Model>() {
    let (_, _, alpha) = yza::<M>();
    let cases = if M::SYMBOLIC { (0..30).map(Rng).collect() } else { vec![Rng::chosen::<M>()] };
    for mut r in cases {
        let b = random::<M>(&mut r, 6, 0, 1, 3);
        let (t, _) = trace(&b);
        let sizes: Vec<usize> = verif::trace_segments(&t).iter().map(|s| s[0].len()).collect();
        if sizes.iter().sum::<usize>() > T::n() {
            continue;
        }
        // a random order of the segments after the root, with random gaps
        let mut slack = T::n() - sizes.iter().sum::<usize>();
        let mut order: Vec<usize> = (1..sizes.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
        let mut plan = vec![[0, 0, sizes[0], 0]; sizes.len()];
        let mut at = sizes[0];
        for k in order {
            let gap = r.below(slack.min(3) + 1);
            slack -= gap;
            at += gap;
            plan[k] = [at, 0, sizes[k], 0];
            at += sizes[k];
        }
        let p: Vec<_> = plan.iter().map(|s| verif::make_segment(*s)).collect();
        let Ok(poly) = verif::assemble::<M, T>(&t, &p, alpha) else {
            M::check(false, "a trace that fits assembles");
            continue;
        };
        let g = gates(&poly);
        let (segs, _) = circuit_spec(&b, alpha);
        for (k, s) in segs.iter().enumerate() {
            M::check(same_rows(&g[plan[k][0]..plan[k][0] + plan[k][2]], s), "each segment's gates are placed where the floor plan says");
        }
        let used = |i: usize| plan.iter().any(|s| s[0] <= i && i < s[0] + s[2]);
        M::check((0..T::n()).all(|i| used(i) || g[i] == [M::ZERO; 4]), "gates outside all segments are zero");
    }
}
fn tree<M: Model>(mut v: Vec<M>) -> M {
    while v.len() > 1 {
        v = v.chunks(2).map(|c| c.iter().fold(M::ZERO, |a, b| a + *b)).collect();
    }
    v.pop().unwrap_or(M::ZERO)
}
/// t(X, Z) in its three forms and as a circuit.
fn reduction<M: Model, K: Rank>() {
    let (x, z) = (M::input("x"), M::input("z"));
    M::fork_only(&[x, z]);
    let n = K::n();
    let zero = x == M::ZERO || z == M::ZERO;
    let want = if zero { M::ZERO } else { -tree((0..n).map(|i| power(x, (4 * n - 1 - i) as u128) * (power(z, (2 * n - 1 - i) as u128) + power(z, (2 * n + i) as u128))).collect()) };
    M::check_eq(K::txz(x, z), want, "txz: minus the sum of x^(4n-1-i) (z^(2n-1-i) + z^(2n+i)), zero if a point is zero");
    M::check_eq(K::tz(z).eval(x), want, "tz(z) at x is t(x, z)");
    M::check_eq(K::tx(x).eval(z), want, "tx(x) at z is t(x, z)");
    if zero {
        return;
    }
    let dr = &mut Vc::<M>::new();
    let ex = Element::alloc(dr, vcd::just(x)).unwrap();
    let ez = Element::alloc(dr, vcd::just(z)).unwrap();
    let (ax, az) = (ex.wire().adv, ez.wire().adv);
    let Ok(out) = dr.routine(Evaluate::<K>::new(), (ex, ez)) else {
        return M::check(false, "the circuit accepts nonzero points");
    };
    M::check_eq(*out.value().take(), want, "the circuit's value is t(x, z)");
    M::check_eq(out.wire().h, want, "the circuit's wire carries its value");
    let (xi, zi) = (ax.invert().unwrap(), az.invert().unwrap());
    let got = -tree((0..n).map(|i| power(ax, (4 * n) as u128) * power(xi, (i + 1) as u128) * (power(az, (2 * n) as u128) * power(zi, (i + 1) as u128) + power(az, (2 * n + i) as u128))).collect());
    M::check_adv_eq(out.wire().adv, got, "soundness: the constraints force the output to t(x, z) for nonzero points");
}
/// The circuit cannot be satisfied at zero.
fn reduction_at_zero<M: Model>() {
    let z = M::input("z");
    let which = M::flip("which");
    let run = |x: M, z: M| {
        let dr = &mut Vc::<M>::new();
        let ex = Element::alloc(dr, vcd::just(x)).unwrap();
        let ez = Element::alloc(dr, vcd::just(z)).unwrap();
        dr.routine(Evaluate::<T>::new(), (ex, ez)).is_err()
    };
    let failed = if which { run(M::ZERO, z) } else { run(z, M::ZERO) };
    M::check(failed, "the circuit refuses a point that is zero");
}
fn reduction_7<M: Model>() {
    reduction::<M, R<7>>()
}
fn reduction_13<M: Model>() {
    reduction::<M, R<13>>()
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C09", "all gates of rank 7", "Rank::tz, sparse::Polynomial::{revdot, dilate, add_assign}, View::build", gates_7);
    contract!(v, "C09", "gates of rank 13", "Rank::tz, sparse::Polynomial::{revdot, dilate, add_assign}, View::build", gates_13, bound "the first 128 gates of the production rank, all values", weight 10);
    contract!(v, "C09", "programs of generic operations", "trace::eval, Trace::assemble, s::sy::eval, Rank::tz, ky::eval", small_programs, bound "all programs of up to 3 generic operations, all assignments (satisfying or not) and challenges");
    contract!(v, "C09", "random programs", "trace::eval, Trace::assemble, s::sy::eval, Rank::tz, ky::eval", random_7, bound "300 program shapes with routines nested up to 3 deep, planned and arbitrary placements, all assignments and challenges", weight 200);
    contract!(v, "C09", "random programs at the production rank", "trace::eval, Trace::assemble, s::sy::eval, Rank::tz, ky::eval", random_13, bound "12 program shapes with routines, rank 13, all assignments and challenges", weight 4);
    contract!(v, "C09", "t(X, Z) of rank 7", "Rank::{tz, tx, txz}, txz::Evaluate", reduction_7, weight 10);
    contract!(v, "C07", "t(X, Z) of rank 7", "Rank::{tz, tx, txz}, txz::Evaluate", reduction_7, weight 10);
    contract!(v, "C09", "t(X, Z) of rank 13", "Rank::{tz, tx, txz}, txz::Evaluate", reduction_13, weight 1);
    contract!(v, "C09", "t(X, Z) at zero", "txz::Evaluate", reduction_at_zero, weight 10);
    contract!(v, "C09", "assembly of traces around the limit", "Trace::assemble", too_long, bound "gate counts around the limit of rank 7", weight 10);
    contract!(v, "C09", "assembly under any placement", "Trace::assemble", placement, bound "30 program shapes and placements, all assignments");
}
