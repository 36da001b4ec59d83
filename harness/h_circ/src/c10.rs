//! Contracts of segment layout: every pass assigns every routine invocation the same place.
use crate::Rng;
use crate::c08::{agree, object, programs};
use crate::c09::{one, shuffled, trace};
use crate::prog::{ALPHABET, Body, Builder, Op, Term, circuit_spec, letter, random, wit};
use ragu_arithmetic::Coeff;
use ragu_circuits::polynomials::{R, Rank};
use ragu_circuits::{RoutineFingerprint, verif};
use std::collections::BTreeMap;
use std::sync::Arc;
use vcd::{Contract, Model, contract};

type T = R<7>;

/// The same program with every routine's prediction decided anew.
fn repredict<M: Model>(b: &Body<M>, f: &mut dyn FnMut(bool) -> bool) -> Arc<Body<M>> {
    let ops = b
        .ops
        .iter()
        .map(|o| match o {
            Op::Call(s, i, k) => Op::Call(repredict(s, f), i.clone(), f(*k)),
            o => o.clone(),
        })
        .collect();
    Arc::new(Body { ops, outs: b.outs.clone() })
}
/// The same program with other witness values.
fn rewitness<M: Model>(b: &Body<M>, r: &mut Rng) -> Arc<Body<M>> {
    let ops = b
        .ops
        .iter()
        .map(|o| match o {
            Op::Gate(_) => Op::Gate([wit(r), wit(r), wit(r), wit(r)]),
            Op::Mul(_) => Op::Mul([wit(r), wit(r), wit(r)]),
            Op::Alloc(_) => Op::Alloc(wit(r)),
            Op::Call(s, i, k) => Op::Call(rewitness(s, r), i.clone(), *k),
            o => o.clone(),
        })
        .collect();
    Arc::new(Body { ops, outs: b.outs.clone() })
}
fn same<M: Model>(a: &[[Vec<M>; 4]], b: &[[Vec<M>; 4]]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (0..4).all(|k| x[k].len() == y[k].len() && x[k].iter().zip(&y[k]).all(|(p, q)| p == q)))
}
fn layout<M: Model, K: Rank>(b: &Arc<Body<M>>, r: &mut Rng) {
    let Ok(o) = object::<M, K>(b) else { return };
    let (segs, _) = circuit_spec(b, M::ZERO);
    let plan: Vec<[usize; 4]> = o.plan().iter().map(verif::segment).collect();
    M::check(plan.len() == segs.len() && o.records().len() == segs.len(), "one segment for the root and one for each routine invocation");
    let (mut g, mut c) = (0, 0);
    for (p, s) in plan.iter().zip(&segs) {
        M::check(*p == [g, c, s.num_gates(), s.cons.len()], "the k-th planned segment follows the one before it and has the size of the k-th invocation in depth-first order");
        g += p[2];
        c += p[3];
    }
    M::check(o.counts() == (g, c), "the measured totals are those of the segments");
    M::check(o.records().iter().zip(&plan).all(|(r, p)| r.num_gates() == p[2] && r.num_constraints() == p[3]), "each measured segment has the planned size");
    M::check(o.records().iter().enumerate().all(|(i, r)| verif::fingerprint(r).is_none() == (i == 0)), "exactly the first segment is the root");
    let (t, _) = trace(b);
    let t = verif::trace_segments(&t);
    M::check(t.len() == plan.len() && t.iter().zip(&plan).all(|(s, p)| s.iter().all(|w| w.len() == p[2])), "the trace has the planned segments, in the planned order, with the planned sizes");
    // prediction and execution order
    for k in 0..3 {
        let b2 = repredict(b, &mut |old| match k {
            0 => !old,
            1 => true,
            _ => r.below(2) == 0,
        });
        let o2 = match object::<M, K>(&b2) {
            Ok(o) => o,
            Err(_) => return M::check(false, "prediction does not change whether the circuit is accepted"),
        };
        let p2: Vec<[usize; 4]> = o2.plan().iter().map(verif::segment).collect();
        M::check(p2 == plan, "the plan does not depend on which routines are predicted");
        let (t2, _) = trace(&b2);
        M::check(same(&verif::trace_segments(&t2), &t), "the trace does not depend on which routines are predicted");
        M::check(o.records().iter().zip(o2.records()).all(|(a, b)| verif::fingerprint(a) == verif::fingerprint(b)), "fingerprints do not depend on prediction");
    }
    // witness values
    let b3 = rewitness(b, r);
    match object::<M, K>(&b3) {
        Ok(o3) => {
            let p3: Vec<[usize; 4]> = o3.plan().iter().map(verif::segment).collect();
            M::check(p3 == plan, "the plan does not depend on the witness");
            M::check(o.records().iter().zip(o3.records()).all(|(a, b)| verif::fingerprint(a) == verif::fingerprint(b)), "fingerprints do not depend on the witness");
            let t3 = verif::trace_segments(&trace(&b3).0);
            M::check(t3.iter().zip(&plan).all(|(s, p)| s[0].len() == p[2]), "the trace's layout does not depend on the witness");
        }
        Err(_) => M::check(false, "the plan does not depend on the witness"),
    }
}
fn cases<M: Model>(n: u64) -> Vec<Rng> {
    if M::SYMBOLIC { (0..n * crate::depth(1) as u64).map(|s| Rng(5000 + s)).collect() } else { vec![Rng::chosen::<M>()] }
}
fn layout_small<M: Model>() {
    M::fork_only(&[]);
    M::opaque_repr();
    if M::SYMBOLIC {
        let mut r = Rng(1);
        programs::<M>(crate::depth(3), |b| layout::<M, T>(&b, &mut r));
    } else {
        let mut r = Rng::chosen::<M>();
        let mut b = Builder::<M>::new(0);
        for _ in 0..r.below(5) {
            let k = r.below(ALPHABET);
            letter(&mut b, k);
        }
        layout::<M, T>(&b.body(1), &mut r)
    }
}
fn layout_random<M: Model>() {
    M::fork_only(&[]);
    M::opaque_repr();
    for mut r in cases::<M>(400) {
        let (n, k) = (r.below(16), r.below(4));
        let b = random::<M>(&mut r, n, 0, k, 4);
        layout::<M, R<13>>(&b, &mut r);
    }
}
fn follow<M: Model>() {
    let (x, y, z, a) = (M::input("x"), M::input("y"), M::input("z"), M::input("alpha"));
    M::fork_only(&[]);
    M::opaque_repr();
    for mut r in cases::<M>(150) {
        let (n, k) = (r.below(14), r.below(4));
        let b = random::<M>(&mut r, n, 0, k, 3);
        let Ok(o) = object::<M, T>(&b) else { continue };
        agree(&o, &shuffled(&o, &mut r), x, y);
        one::<M, T>(&b, y, z, a, Some(&mut r));
    }
}

// ------------------------------------------------------------------ fingerprints

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Id {
    One,
    In(usize),
    Gate(usize, usize),
    Out(usize, usize),
}
type Form<M> = BTreeMap<Id, M>;
/// A routine's own constraints as linear forms over its wires, and its number of gates.
fn wiring<M: Model>(b: &Body<M>, ins: usize) -> (usize, Vec<Form<M>>) {
    let unit = |i: Id| -> Form<M> { BTreeMap::from([(i, M::ONE)]) };
    let mut w: Vec<Form<M>> = vec![unit(Id::One)];
    w.extend((0..ins).map(|i| unit(Id::In(i))));
    let (mut g, mut calls, mut free) = (0, 0, None);
    let mut cons = vec![];
    let add = |s: &mut Form<M>, f: &Form<M>, k: M| {
        for (i, c) in f {
            *s.entry(*i).or_insert(M::ZERO) += *c * k;
        }
    };
    let lin = |t: &[Term<M>], w: &[Form<M>]| {
        let (mut s, mut gain) = (Form::new(), M::ONE);
        for t in t {
            match t {
                Term::W(i, c) => add(&mut s, &w[*i], vcd::coeff(c) * gain),
                Term::Plus(i) => add(&mut s, &w[*i], gain),
                Term::Minus(i) => add(&mut s, &w[*i], -gain),
                Term::Gain(c) => gain *= vcd::coeff(c),
                Term::Extend(l) => l.iter().for_each(|(i, c)| add(&mut s, &w[*i], vcd::coeff(c) * gain)),
            }
        }
        s
    };
    for op in &b.ops {
        match op {
            Op::Gate(_) | Op::Mul(_) => {
                let n = if matches!(op, Op::Gate(_)) { 4 } else { 3 };
                w.extend((0..n).map(|k| unit(Id::Gate(g, k))));
                g += 1;
            }
            Op::Alloc(_) => match free.take() {
                Some(k) => w.push(unit(Id::Gate(k, 3))),
                None => {
                    w.push(unit(Id::Gate(g, 1)));
                    free = Some(g);
                    g += 1;
                }
            },
            Op::Const(c) => w.push(BTreeMap::from([(Id::One, vcd::coeff(c))])),
            Op::Add(t) => {
                let f = lin(t, &w);
                w.push(f);
            }
            Op::Enforce(t) => cons.push(lin(t, &w)),
            Op::Equal(i, j) => {
                let mut s = Form::new();
                add(&mut s, &w[*i], M::ONE);
                add(&mut s, &w[*j], -M::ONE);
                cons.push(s);
            }
            Op::Call(s, ..) => {
                w.extend((0..s.outs.len()).map(|k| unit(Id::Out(calls, k))));
                calls += 1;
            }
            Op::Drop(_) => {}
        }
    }
    for f in &mut cons {
        f.retain(|_, c| *c != M::ZERO);
    }
    (g, cons)
}
fn same_wiring<M: Model>(a: &(usize, Vec<Form<M>>), b: &(usize, Vec<Form<M>>)) -> bool {
    a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(f, g)| f.len() == g.len() && f.iter().zip(g).all(|((i, x), (j, y))| i == j && x == y))
}
/// The fingerprint of a routine called from a circuit that first performs `before`.
fn fingerprint<M: Model>(body: &Arc<Body<M>>, ins: usize, before: &[usize], known: bool) -> Option<RoutineFingerprint> {
    let mut b = Builder::<M>::new(0);
    for k in before {
        letter(&mut b, *k);
    }
    let mut segs = vec![crate::prog::Seg::default()];
    crate::prog::spec(&Body { ops: b.ops.clone(), outs: vec![] }, vec![], &mut segs, 0);
    let at = segs.len();
    let from = b.last(2);
    let args = (0..ins).map(|i| from[i % from.len()]).collect();
    b.push(Op::Call(body.clone(), args, known));
    let o = object::<M, R<13>>(&b.body(1)).ok()?;
    verif::fingerprint(&o.records()[at])
}
/// A small change of the program that keeps it well-formed.
fn mutate<M: Model>(b: &Body<M>, ins: usize, r: &mut Rng) -> Option<Body<M>> {
    let mut b = b.clone();
    if b.ops.is_empty() {
        return None;
    }
    let k = r.below(b.ops.len());
    let mut live: Vec<usize> = (0..=ins).collect();
    let mut next = ins + 1;
    for op in &b.ops[..k] {
        let n = match op {
            Op::Gate(_) => 4,
            Op::Mul(_) => 3,
            Op::Alloc(_) | Op::Const(_) | Op::Add(_) => 1,
            Op::Call(s, ..) => s.outs.len(),
            Op::Drop(i) => {
                live.retain(|j| j != i);
                0
            }
            _ => 0,
        };
        live.extend(next..next + n);
        next += n;
    }
    let other = live[r.below(live.len())];
    let fresh = Coeff::Arbitrary(M::input("m"));
    match &mut b.ops[k] {
        Op::Add(t) | Op::Enforce(t) => match r.below(5) {
            0 => t.push(Term::W(other, fresh)),
            1 if !t.is_empty() => {
                let i = r.below(t.len());
                t.remove(i);
            }
            2 => t.insert(0, Term::Gain(fresh)),
            3 if !t.is_empty() => {
                let i = r.below(t.len());
                t[i] = match &t[i] {
                    Term::W(_, c) => Term::W(other, *c),
                    Term::Plus(_) => Term::Plus(other),
                    Term::Minus(w) => Term::Plus(*w),
                    Term::Gain(_) => Term::Gain(fresh),
                    Term::Extend(l) => Term::Extend(l.iter().map(|(w, c)| (*w, Coeff::Arbitrary(vcd::coeff(c) + M::ONE))).collect()),
                };
            }
            _ => t.push(Term::Minus(other)),
        },
        Op::Equal(i, j) => match r.below(3) {
            0 => std::mem::swap(i, j),
            1 => *i = other,
            _ => *j = other,
        },
        Op::Const(c) => *c = fresh,
        _ => match r.below(4) {
            0 => b.ops.insert(k, Op::Equal(other, 0)),
            1 => b.ops.push(Op::Alloc(fresh)),
            2 => b.ops.insert(k, Op::Enforce(vec![Term::Plus(other), Term::W(0, fresh)])),
            _ => b.ops.push(Op::Gate([fresh, fresh, fresh, fresh])),
        },
    }
    if r.below(3) == 0 {
        // and the order of two constraints
        let e: Vec<usize> = (0..b.ops.len()).filter(|i| matches!(b.ops[*i], Op::Enforce(_) | Op::Equal(..))).collect();
        if let Some(p) = e.windows(2).find(|p| p[1] == p[0] + 1) {
            b.ops.swap(p[0], p[1]);
        }
    }
    if r.below(4) == 0 {
        let e: Vec<usize> = (0..b.ops.len()).filter(|i| matches!(b.ops[*i], Op::Enforce(_) | Op::Equal(..))).collect();
        if !e.is_empty() {
            b.ops.remove(e[r.below(e.len())]);
        }
    }
    Some(b)
}
const SAME: &str = "two routines share a fingerprint only if their constraints are the same";
fn fingerprints<M: Model>() {
    M::fork_only(&[]);
    M::opaque_repr();
    for mut r in cases::<M>(300) {
        let (n, i, o) = (1 + r.below(10), r.below(3), r.below(3));
        let b = random::<M>(&mut r, n, i, o, 2);
        let Some(f) = fingerprint(&b, i, &[], false) else { continue };
        let before: Vec<usize> = (0..r.below(4)).map(|_| r.below(ALPHABET)).collect();
        let w = rewitness(&b, &mut r);
        if let Some(g) = fingerprint(&w, i, &before, true) {
            M::check(f == g, "the fingerprint does not depend on the caller, the witness or prediction");
        }
        let mine = wiring(&b, i);
        for _ in 0..3 {
            let Some(b2) = mutate(&b, i, &mut r) else { continue };
            let b2 = Arc::new(b2);
            if let Some(g) = fingerprint(&b2, i, &before, false) {
                M::check(f != g || same_wiring(&mine, &wiring(&b2, i)), SAME);
            }
        }
        for (i2, o2) in [((i + 1) % 3, o), (i, (o + 1) % 3)] {
            if i2 >= i {
                let mut outs = b.outs.clone();
                outs.resize(o2, 0);
                let b2 = Arc::new(Body { ops: b.ops.clone(), outs });
                // more inputs would renumber the wires: only those without are tried
                if i2 != i && (i > 0 || b.ops.iter().any(|o| !matches!(o, Op::Alloc(_)))) {
                    continue;
                }
                if let Some(g) = fingerprint(&b2, i2, &[], false) {
                    M::check(f != g, "routines of different arity have different fingerprints");
                }
            }
        }
    }
}
/// One constraint between any two wires of a routine, against one between any two others.
fn every_wire<M: Model>() {
    M::fork_only(&[]);
    M::opaque_repr();
    let shapes: Vec<Vec<usize>> = vec![vec![0, 2, 1, 2, 2], vec![2, 8, 2, 0], vec![7, 0, 2, 2], vec![0, 0, 2, 7, 2, 2]];
    let pick = if M::SYMBOLIC { (0..shapes.len()).collect() } else { vec![crate::small::<M>("s", 2)] };
    for s in pick {
        let mut b = Builder::<M>::new(2);
        for k in &shapes[s] {
            letter(&mut b, *k);
        }
        let all = b.live.clone();
        let ops = b.ops.clone();
        let mut seen: Vec<(RoutineFingerprint, (usize, Vec<Form<M>>), Arc<Body<M>>)> = vec![];
        for i in &all {
            for j in &all {
                let mut ops = ops.clone();
                ops.push(Op::Enforce(vec![Term::Plus(*i), Term::W(*j, Coeff::Two)]));
                let b = Arc::new(Body { ops, outs: vec![] });
                let Some(f) = fingerprint(&b, 2, &[], false) else { continue };
                let w = wiring(&b, 2);
                for (g, v, _) in &seen {
                    M::check(f != *g || same_wiring(&w, v), SAME);
                }
                seen.push((f, w, b));
            }
        }
    }
}
/// A wire that a nested call returned against a gate wire allocated in its place.
fn call_order<M: Model>() {
    M::fork_only(&[]);
    M::opaque_repr();
    let w = || Coeff::Arbitrary(M::input("w"));
    let gate = || Op::Gate([w(), w(), w(), w()]);
    let child: Arc<Body<M>> = Arc::new(Body { ops: vec![Op::Alloc(w())], outs: vec![1] });
    // wires: One, then the call's output and the gate's in the order of the operations
    let a = Arc::new(Body { ops: vec![Op::Call(child.clone(), vec![], false), gate(), Op::Equal(1, 0)], outs: vec![] });
    let b = Arc::new(Body { ops: vec![gate(), Op::Call(child, vec![], false), Op::Equal(2, 0)], outs: vec![] });
    let (f, g) = (fingerprint(&a, 0, &[], false).unwrap(), fingerprint(&b, 0, &[], false).unwrap());
    M::check(f != g, "a constraint on a nested call's output is told from one on the caller's own gate");
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C10", "layout of programs of generic operations", "metrics::eval, floor_plan, trace::eval", layout_small, bound "all programs of up to 3 generic operations, every choice of prediction");
    contract!(v, "C10", "layout of random programs", "metrics::eval, floor_plan, trace::eval", layout_random, bound "400 program shapes with routines nested up to 4 deep, all witnesses", weight 200);
    contract!(v, "C10", "every pass follows the floor plan", "trace::eval, Trace::assemble, s::{sxy, sx, sy}::eval", follow, bound "150 program shapes, other orders of the segments than the planner's", weight 100);
    contract!(v, "C10", "fingerprints", "metrics::Counter", fingerprints, bound "300 program shapes and 3 changes to each, all coefficients", weight 100);
    contract!(v, "C10", "fingerprints tell all wires apart", "metrics::Counter", every_wire, bound "all pairs of wires of 4 routine shapes", weight 1);
    contract!(v, "C10", "fingerprints tell nested outputs apart", "metrics::Counter", call_order, bound "one pair of routines", weight 1);
}
