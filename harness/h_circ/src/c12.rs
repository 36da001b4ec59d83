//! Contracts of stages: witness polynomials and masks confine values to a stage's own gates.
use crate::Rng;
use crate::c08::{agree, object};
use crate::c09::{gates, trace};
use crate::power;
use crate::prog::{Body, Builder, Op, Term, circuit_spec, letter, random};
use crate::stages::{A1, A2, A3, A4, B1, B2, Bits, Plain, S, Staged, UseBits, bonding};

use ragu_arithmetic::Coeff;
use ragu_circuits::polynomials::{R, Rank, sparse};
use ragu_circuits::staging::{MultiStage, MultiStageCircuit, Stage, StageExt};
use ragu_circuits::{CircuitExt, verif};
use ragu_core::Error;
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use pasta_curves::Fp;
use vcd::{Contract, Model, contract, explore};

type T = R<7>;

/// The degrees of gate j's wires (a, b, c, d) in a wiring polynomial.
fn degrees<K: Rank>(j: usize) -> [usize; 4] {
    let n = K::n();
    [2 * n - 1 - j, 2 * n + j, 4 * n - 1 - j, j]
}
fn outside<K: Rank>(skip: usize, num: usize) -> impl Iterator<Item = usize> {
    (1..K::n()).filter(move |j| *j < skip || *j >= skip + num)
}
fn mask_at<M: Model, K: Rank>(skip: usize, num: usize, x: M, y: M, r: &[[M; 4]]) {
    let m = match verif::mask::<M, K>(skip, num) {
        Ok(m) => {
            M::check(skip + num <= K::n(), "a mask beyond the capacity is refused");
            m
        }
        Err(Error::GateBoundExceeded { limit }) => return M::check(skip + num > K::n() && limit == K::n(), "a mask within the capacity is accepted"),
        Err(_) => return M::check(false, "a mask within the capacity is accepted"),
    };
    let want = outside::<K>(skip, num).flat_map(|j| degrees::<K>(j)).fold(M::ZERO, |a, d| a + power(x * y, d as u128));
    M::check_eq(m.sxy(x, y, &[]), want, "the mask at (x, y) is one constraint for each wire outside the reserved gates");
    M::check_eq(m.sx(x, &[]).eval(y), want, "the mask at x is one constraint for each wire outside the reserved gates");
    M::check_eq(m.sy(y, &[]).eval(x), want, "the mask at y is one constraint for each wire outside the reserved gates");
    M::check(m.counts() == (K::n(), K::num_coeffs() - 1), "a mask has the full counts of gates and constraints");
    if r.is_empty() {
        return;
    }
    let mut v = sparse::View::<M, K, _>::trace();
    for g in r {
        v.a.push(g[0]);
        v.b.push(g[1]);
        v.c.push(g[2]);
        v.d.push(g[3]);
    }
    let want = outside::<K>(skip, num).flat_map(|j| (0..4).map(move |k| (j, k))).fold(M::ZERO, |a, (j, k)| a + r[j][k] * power(y, degrees::<K>(j)[k] as u128));
    M::check_eq(v.build().revdot(&m.sy(y, &[])), want, "the mask's claim holds each wire outside the reserved gates, at its own power of y, and no other");
}
fn xy<M: Model>() -> (M, M) {
    let (x, y) = (M::input("x"), M::input("y"));
    M::fork_only(&[x, y]);
    M::opaque_repr();
    (x, y)
}
fn masks<M: Model>() {
    let (x, y) = xy::<M>();
    let n = T::n();
    let r: Vec<[M; 4]> = (0..n).map(|_| [M::input("a"), M::input("b"), M::input("c"), M::input("d")]).collect();
    if M::SYMBOLIC {
        for skip in 1..=n + 1 {
            for num in 0..=n + 1 - skip.min(n) {
                mask_at::<M, T>(skip, num, x, y, &r)
            }
        }
    } else {
        mask_at::<M, T>(1 + crate::small::<M>("s", 5), crate::small::<M>("n", 5), x, y, &r)
    }
}
fn masks_13<M: Model>() {
    let (x, y) = xy::<M>();
    let n = R::<13>::n();
    for (s, k) in [(1, 0), (1, n - 1), (n, 0), (5, 700), (n - 9, 9), (n - 9, 10), (600, 1)] {
        mask_at::<M, R<13>>(s, k, x, y, &[])
    }
}
fn final_masks<M: Model>() {
    let (x, y) = xy::<M>();
    for skip in 1..=T::n() + 2 {
        match verif::mask_final::<M, T>(skip) {
            Ok(m) => {
                M::check(skip <= T::n(), "a final mask beyond the capacity is refused");
                let want = (1..skip).flat_map(degrees::<T>).fold(M::ZERO, |a, d| a + power(x * y, d as u128));
                M::check_eq(m.sxy(x, y, &[]), want, "the final mask constrains exactly the gates before it");
                M::check_eq(m.sx(x, &[]).eval(y), want, "the final mask constrains exactly the gates before it (x)");
                M::check_eq(m.sy(y, &[]).eval(x), want, "the final mask constrains exactly the gates before it (y)");
            }
            Err(Error::GateBoundExceeded { limit }) => M::check(skip > T::n() && limit == T::n(), "a final mask within the capacity is accepted"),
            Err(_) => M::check(false, "a final mask within the capacity is accepted"),
        }
    }
}

fn claim<M: Model, K: Rank>(r: &sparse::Polynomial<M, K>, m: verif::Obj<'_, M, K>, y: M) -> M {
    r.revdot(&m.sy(y, &[]))
}
/// One stage at a known position.
fn stage<M: Model, G: for<'a> Stage<M, T, Witness<'a> = Vec<M>> + Default>(skip: usize, v: usize, w: usize, y: M) {
    let num = v.div_ceil(2);
    M::check(G::skip_gates() == skip && G::num_gates() == num && G::values() == v, "a stage's position follows all its ancestors");
    let vals: Vec<M> = (0..w).map(|_| M::input("v")).collect();
    let alpha = M::input("alpha");
    let fits = skip + num <= T::n();
    let mask = G::mask().map(verif::bonding);
    M::check(mask.is_ok() == fits, "the mask of a stage beyond the capacity is refused");
    M::check(G::final_mask().is_ok() == fits, "the final mask of a stage beyond the capacity is refused");
    let r = match catch_unwind(AssertUnwindSafe(|| G::default().rx_configured(alpha, vals.clone()))) {
        Ok(Ok(r)) => r,
        Ok(Err(Error::GateBoundExceeded { limit })) => return M::check(w > v && limit == num, "a stage's polynomial is refused only beyond its declared size"),
        Ok(Err(_)) => return M::check(false, "a stage's polynomial is refused only beyond its declared size"),
        Err(_) => return M::check(!fits, "a stage's polynomial is refused only beyond its declared size"),
    };
    M::check(w <= v, "a stage that writes more than its declared size is refused");
    let g = gates(&r);
    let at = |k: usize| vals.get(k).copied().unwrap_or(M::ZERO);
    let ok = |j: usize| match j {
        0 => g[0] == [M::ZERO, M::ZERO, M::ZERO, alpha],
        j if j >= skip && j < skip + num => g[j] == [M::ZERO, at(2 * (j - skip)), M::ZERO, at(2 * (j - skip) + 1)],
        j => g[j] == [M::ZERO; 4],
    };
    M::check((0..T::n()).all(ok), "a stage's polynomial carries its values on exactly its own gates");
    let Ok(mask) = mask else { return };
    M::check_eq(claim(&r, mask, y), M::ZERO, "a stage's own mask accepts its polynomial");
    if fits {
        let c: Vec<M> = r.iter_coeffs().collect();
        for i in 0..num {
            let k = <G as StageExt<M, T>>::generator_index_for_b(i);
            M::check(k == 2 * T::n() - 1 - skip - i && c[k] == at(2 * i), "the commitment generator of a stage's b wire is that of its coefficient");
        }
        M::check(catch_unwind(|| <G as StageExt<M, T>>::generator_index_for_b(num)).is_err(), "no generator outside the stage is handed out");
    }
    // any other mask sees exactly the values that are not its own
    for (s, n) in [(1, 0), (1, num), (skip + num, 0), (skip, num.saturating_sub(1)), (skip + 1, num)] {
        if s + n <= T::n() && s > 0 {
            let want = outside::<T>(s, n).filter(|j| *j >= skip && *j < skip + num).fold(M::ZERO, |a, j| {
                let d = degrees::<T>(j);
                a + at(2 * (j - skip)) * power(y, d[1] as u128) + at(2 * (j - skip) + 1) * power(y, d[3] as u128)
            });
            M::check_eq(claim(&r, verif::mask(s, n).unwrap(), y), want, "another mask sees exactly the values outside its gates");
        }
    }
}
fn stages<M: Model>() {
    let y = M::input("y");
    M::fork_only(&[y]);
    stage::<M, S<0, 0>>(1, 0, 0, y);
    stage::<M, S<1, 0>>(1, 1, 0, y);
    stage::<M, S<1, 1>>(1, 1, 1, y);
    stage::<M, S<2, 1>>(1, 2, 1, y);
    stage::<M, S<2, 2>>(1, 2, 2, y);
    stage::<M, S<3, 3>>(1, 3, 3, y);
    stage::<M, S<4, 2>>(1, 4, 2, y);
    stage::<M, S<62, 62>>(1, 62, 62, y);
    stage::<M, S<61, 60>>(1, 61, 60, y);
    stage::<M, S<63, 63>>(1, 63, 63, y);
    stage::<M, S<64, 1>>(1, 64, 1, y);
    stage::<M, S<2, 3>>(1, 2, 3, y);
    stage::<M, S<1, 2>>(1, 1, 2, y);
    stage::<M, S<0, 1>>(1, 0, 1, y);
    stage::<M, S<3, 3, S<4, 2>>>(3, 3, 3, y);
    stage::<M, S<5, 5, S<3, 3, S<4, 2>>>>(5, 5, 5, y);
    stage::<M, S<5, 5, S<0, 0, S<4, 2>>>>(3, 5, 5, y);
    stage::<M, S<5, 6, S<3, 3, S<1, 1>>>>(4, 5, 6, y);
    stage::<M, S<57, 57, S<3, 3, S<1, 1>>>>(4, 57, 57, y);
    stage::<M, S<56, 56, S<3, 3, S<1, 1>>>>(4, 56, 56, y);
    stage::<M, S<0, 0, S<62, 62>>>(32, 0, 0, y);
    stage::<M, S<1, 1, S<62, 62>>>(32, 1, 1, y);
}

/// The same circuit, its stages allocated in place: the reference for a multi-stage circuit.
fn inlined<M: Model>(sizes: &[(usize, usize)], vals: &[Vec<M>], order: &[usize], body: &Arc<Body<M>>) -> Arc<Body<M>> {
    let mut ops = vec![];
    let mut wires = vec![vec![]; sizes.len()];
    let mut next = 1;
    for (k, (v, w)) in sizes.iter().enumerate() {
        for i in 0..v.div_ceil(2) * 2 {
            ops.push(Op::Alloc(Coeff::Arbitrary(if i < *w { vals[k][i] } else { M::ZERO })));
            if i < *w {
                wires[k].push(next);
            }
            next += 1;
        }
    }
    // renumber the body: 0 stays, inputs become stage wires, the rest follows
    let ins: Vec<usize> = order.iter().flat_map(|k| wires[*k].clone()).collect();
    let f = |i: usize| match i {
        0 => 0,
        i if i <= ins.len() => ins[i - 1],
        i => i - ins.len() - 1 + next,
    };
    let t = |v: &Vec<Term<M>>| {
        v.iter()
            .map(|x| match x {
                Term::W(i, c) => Term::W(f(*i), *c),
                Term::Plus(i) => Term::Plus(f(*i)),
                Term::Minus(i) => Term::Minus(f(*i)),
                Term::Gain(c) => Term::Gain(*c),
                Term::Extend(v) => Term::Extend(v.iter().map(|(i, c)| (f(*i), *c)).collect()),
            })
            .collect()
    };
    for op in &body.ops {
        ops.push(match op {
            Op::Add(v) => Op::Add(t(v)),
            Op::Enforce(v) => Op::Enforce(t(v)),
            Op::Equal(i, j) => Op::Equal(f(*i), f(*j)),
            Op::Call(b, i, k) => Op::Call(b.clone(), i.iter().map(|i| f(*i)).collect(), *k),
            Op::Drop(i) => Op::Drop(f(*i)),
            o => o.clone(),
        });
    }
    Arc::new(Body { ops, outs: body.outs.iter().map(|i| f(*i)).collect() })
}
fn multi<M: Model, L, const O: usize>(r: &mut Rng, sizes: &[(usize, usize)], order: &[usize], mode: u8, x: M, y: M, stage_rx: impl Fn(&[Vec<M>]) -> Vec<sparse::Polynomial<M, T>>)
where
    L: Stage<M, T>,
    Staged<M, T, L, O>: for<'s> MultiStageCircuit<M, T, Last = L, Witness<'s> = Vec<Vec<M>>, Instance<'s> = Vec<M>, Aux<'s> = ()> + Clone + 'static,
{
    let vals: Vec<Vec<M>> = sizes.iter().map(|s| (0..s.1).map(|_| M::input("v")).collect()).collect();
    let ins = order.iter().map(|k| sizes[*k].1).sum();
    let n = r.below(6);
    let body = random::<M>(r, n, ins, O, 2);
    let c = MultiStage::<M, T, _>::new(Staged::<M, T, L, O>(body.clone(), mode, PhantomData));
    let flat = inlined(sizes, &vals, order, &body);
    let (got, want) = (verif::object::<M, T, _>(c.clone()), object::<M, T>(&flat));
    let (got, want) = match (got, want) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return,
        _ => return M::check(false, "a multi-stage circuit fits exactly when the same circuit without stages does"),
    };
    let p = got.plan();
    M::check(p.iter().map(verif::segment).eq(want.plan().iter().map(verif::segment)), "a multi-stage circuit has the layout of the same circuit without stages");
    M::check_eq(got.sxy(x, y, &p), want.sxy(x, y, &p), "a multi-stage circuit has the wiring of the same circuit whose stages are allocated in order");
    agree(&got, &p, x, y);
    // the trace
    let alpha = M::input("alpha");
    let (t, _) = c.trace(vals.clone()).unwrap().into_parts();
    let last: sparse::Polynomial<M, T> = verif::assemble(&t, &p, alpha).unwrap();
    let skip = <L as Stage<M, T>>::skip_gates() + <L as StageExt<M, T>>::num_gates();
    M::check(gates(&last)[1..skip].iter().all(|g| *g == [M::ZERO; 4]), "the final trace is zero on every stage's gates");
    M::check_eq(claim(&last, verif::bonding(c.final_mask().unwrap()), y), M::ZERO, "the final mask accepts the final trace");
    let mut sum = last.clone();
    for s in stage_rx(&vals) {
        sum.add_assign(&s);
    }
    let full: sparse::Polynomial<M, T> = verif::assemble(&trace(&flat).0, &p, alpha).unwrap();
    M::check(gates(&sum) == gates(&full), "the stage polynomials and the final trace sum to the trace of the whole circuit");
    let (_, outs) = circuit_spec(&flat, alpha);
    let k = c.ky(outs.clone(), y).unwrap();
    M::check_eq(k, outs.iter().chain([&M::ONE]).fold(M::ZERO, |a, o| a * y + *o), "the public outputs are those of the circuit");
}
fn rx<M: Model, G: for<'a> Stage<M, T, Witness<'a> = Vec<M>> + Default>(v: &[M]) -> sparse::Polynomial<M, T> {
    G::default().rx_configured(M::ZERO, v.to_vec()).unwrap()
}
fn multi_stage<M: Model>() {
    let (x, y) = xy::<M>();
    let cases: Vec<Rng> = if M::SYMBOLIC { (0..20 * crate::depth(1) as u64).map(Rng).collect() } else { vec![Rng::chosen::<M>()] };
    for mut r in cases {
        let r = &mut r;
        let four = [(3, 3), (5, 2), (0, 0), (4, 4)];
        let all = |v: &[Vec<M>]| vec![rx::<M, A1>(&v[0]), rx::<M, A2>(&v[1]), rx::<M, A3>(&v[2]), rx::<M, A4>(&v[3])];
        for mode in [0, 1] {
            multi::<M, A1, 1>(r, &[(3, 3)], &[0], mode, x, y, |v| vec![rx::<M, A1>(&v[0])]);
            multi::<M, A4, 2>(r, &four, &[3, 0, 1], mode, x, y, all);
            multi::<M, B2, 0>(r, &[(1, 0), (6, 5)], &[0, 1], mode, x, y, |v| vec![rx::<M, B1>(&v[0]), rx::<M, B2>(&v[1])]);
        }
        multi::<M, A4, 2>(r, &four, &[3, 1], 2, x, y, all);
    }
}
/// `enforced` adds the stage gadget's consistency constraints, `unenforced` adds nothing.
fn enforcement<M: Model>() {
    let (y, z, delta) = (M::input("y"), M::input("z"), M::input("delta"));
    y.assume_nonzero();
    z.assume_nonzero();
    M::fork_only(&[]);
    M::opaque_repr();
    for bits in [[false, false], [false, true], [true, false], [true, true]] {
        for enforce in [false, true] {
            let c = MultiStage::<M, T, _>::new(UseBits(enforce));
            let o = verif::object::<M, T, _>(c.clone()).unwrap();
            let (t, _) = c.trace(bits).unwrap().into_parts();
            let last: sparse::Polynomial<M, T> = verif::assemble(&t, &o.plan(), M::ZERO).unwrap();
            let st = Bits.rx_configured(M::ZERO, bits).unwrap();
            M::check(enforce || gates(&last)[4..].iter().all(|g| *g == [M::ZERO; 4]), "an unenforced stage adds no gate");
            for which in 0..3 {
                // change one of the stage's wires
                let mut r = last.clone();
                r.add_assign(&st);
                let mut v = sparse::View::<M, T, _>::trace();
                for j in 0..=3 {
                    v.a.push(M::ZERO);
                    v.b.push(if j == 3 && which == 1 { delta } else { M::ZERO });
                    v.c.push(M::ZERO);
                    v.d.push(if j == 3 && which == 2 { delta } else { M::ZERO });
                }
                r.add_assign(&v.build());
                let mut rhs = r.clone();
                rhs.dilate(z);
                rhs.add_assign(&o.sy(y, &o.plan()));
                rhs.add_assign(&T::tz(z));
                let res = r.revdot(&rhs) - M::ONE;
                if which == 0 || !enforce {
                    M::check_eq(res, M::ZERO, "an honest stage satisfies the circuit; an unenforced one is not constrained");
                } else if M::SYMBOLIC {
                    M::check(res != M::ZERO, "an enforced stage's wires are constrained");
                }
            }
        }
    }
}

/// A program a bonding circuit may be: no gates, no constants, no use of ONE.
fn permitted<M: Model>(b: &Body<M>, one: &mut Vec<bool>) -> bool {
    let t = |v: &Vec<Term<M>>, one: &[bool]| {
        v.iter().all(|x| match x {
            Term::W(i, _) | Term::Plus(i) | Term::Minus(i) => !one[*i],
            Term::Gain(_) => true,
            Term::Extend(v) => v.iter().all(|(i, _)| !one[*i]),
        })
    };
    b.ops.iter().all(|op| match op {
        Op::Gate(_) | Op::Mul(_) | Op::Const(_) => false,
        Op::Alloc(_) => {
            one.push(false);
            true
        }
        Op::Add(v) => {
            let ok = t(v, one);
            one.push(false);
            ok
        }
        Op::Enforce(v) => t(v, one),
        Op::Equal(i, j) => !one[*i] && !one[*j],
        Op::Call(b, ins, _) => {
            let mut inner = vec![true];
            inner.extend(ins.iter().map(|i| one[*i]));
            let ok = permitted(b, &mut inner);
            one.extend(b.outs.iter().map(|o| ok && inner[*o]));
            ok
        }
        Op::Drop(_) => true,
    })
}
fn bond<M: Model>(b: &Arc<Body<M>>, x: M, y: M) {
    let plain = || MultiStage::<M, T, _>::new(Plain::<M, T>(b.clone(), PhantomData));
    let ok = permitted(b, &mut vec![true]);
    let got = match bonding::<M, T>(b) {
        Ok(o) => {
            M::check(ok, "a bonding circuit with gates, constants or ONE is refused");
            verif::bonding(o)
        }
        Err(Error::InvalidWitness(_)) => return M::check(!ok, "a permitted bonding circuit is accepted"),
        Err(_) => return M::check(verif::object::<M, T, _>(plain()).is_err(), "a permitted bonding circuit is accepted"),
    };
    let inner = verif::object::<M, T, _>(plain()).unwrap();
    let p = inner.plan();
    M::check(got.plan().iter().map(verif::segment).eq(p.iter().map(verif::segment)), "a bonding object has its circuit's layout");
    let (g, c) = inner.counts();
    M::check(got.counts() == (g, c - 1), "a bonding object counts all constraints but the one on ONE");
    M::check_eq(got.sxy(x, y, &p), inner.sxy(x, y, &p) - power(x, 2 * T::n() as u128), "a bonding polynomial is its circuit's without the constraint on ONE");
    agree(&got, &p, x, y);
    M::check_eq(got.sxy(x, M::ZERO, &p), M::ZERO, "a bonding polynomial has no constant term in Y");
    // its claim is the sum of its constraints alone
    let (segs, _) = circuit_spec(b, M::ZERO);
    let t: sparse::Polynomial<M, T> = verif::assemble(&trace(b).0, &p, M::input("alpha")).unwrap();
    let mut want = M::ZERO;
    for (k, s) in segs.iter().enumerate() {
        let [_, cs, _, nc] = verif::segment(&p[k]);
        for (j, e) in s.cons.iter().enumerate() {
            if (k, j + 1) != (0, s.cons.len()) {
                want += power(y, (cs + nc - 1 - j) as u128) * *e;
            }
        }
    }
    M::check_eq(t.revdot(&got.sy(y, &p)), want, "a bonding claim combines exactly the circuit's own constraints");
}
fn bondings<M: Model>() {
    let (x, y) = xy::<M>();
    let cases: Vec<Rng> = if M::SYMBOLIC { (0..150 * crate::depth(1) as u64).map(Rng).collect() } else { vec![Rng::chosen::<M>()] };
    for mut r in cases {
        let n = r.below(7);
        let b = random::<M>(&mut r, n, 0, 0, 2);
        bond(&b, x, y);
        bond(&clean(&b), x, y);
    }
    if M::SYMBOLIC {
        for n in 0..=2 {
            for code in 0..10usize.pow(n) {
                let mut b = Builder::<M>::new(0);
                let mut c = code;
                b.push(Op::Alloc(Coeff::Arbitrary(M::input("w"))));
                for _ in 0..n {
                    letter(&mut b, c % 10);
                    c /= 10;
                }
                bond(&b.body(0), x, y)
            }
        }
    }
}
/// The program with everything forbidden replaced by an allocation.
fn clean<M: Model>(b: &Body<M>) -> Arc<Body<M>> {
    fn go<M: Model>(b: &Body<M>, mut one: Vec<bool>) -> Arc<Body<M>> {
        let mut ops = vec![];
        for op in &b.ops {
            let new = match op {
                Op::Gate(g) => g.iter().map(|c| Op::Alloc(*c)).collect(),
                Op::Mul(g) => g.iter().map(|c| Op::Alloc(*c)).collect(),
                Op::Const(c) => vec![Op::Alloc(*c)],
                Op::Call(b, i, k) => {
                    let mut inner = vec![true];
                    inner.extend(i.iter().map(|i| one[*i]));
                    let b = go(b, inner);
                    one.extend(b.outs.iter().map(|_| false));
                    vec![Op::Call(b, i.clone(), *k)]
                }
                o => vec![o.clone()],
            };
            for o in new {
                let keep = |i: &usize| !one[*i];
                let t = |v: &Vec<Term<M>>| v.iter().filter(|t| match t {
                    Term::W(i, _) | Term::Plus(i) | Term::Minus(i) => keep(i),
                    Term::Gain(_) => true,
                    Term::Extend(v) => v.iter().all(|(i, _)| keep(i)),
                }).cloned().collect::<Vec<_>>();
                let o = match &o {
                    Op::Add(v) => Op::Add(t(v)),
                    Op::Enforce(v) => Op::Enforce(t(v)),
                    Op::Equal(i, j) if one[*i] || one[*j] => continue,
                    _ => o.clone(),
                };
                if matches!(o, Op::Alloc(_) | Op::Add(_)) {
                    one.push(false);
                }
                ops.push(o);
            }
        }
        ops.push(Op::Alloc(Coeff::One));
        let outs = b.outs.iter().map(|o| if one[*o] { one.len() } else { *o }).collect();
        Arc::new(Body { ops, outs })
    }
    go(b, vec![true])
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C12", "masks", "StageMask::{new,sxy,sx,sy,constraint_counts}, geosum", masks, bound "every position and length at rank 7, all polynomials, x and y", weight 20);
    explore!(v, "C12", "masks at the production rank", "StageMask::{new,sxy,sx,sy}", masks_13::<Fp>, bound "7 positions at rank 13, sampled x and y", weight 3);
    contract!(v, "C12", "final masks", "StageMask::new_final", final_masks, bound "every position at rank 7, all x and y", weight 3);
    contract!(v, "C12", "stage polynomials", "StageExt::{rx_configured,mask,final_mask,generator_index_for_b,num_gates}, Stage::skip_gates", stages, bound "22 stage shapes, up to three levels, all values", weight 3);
    contract!(v, "C12", "multi-stage circuits", "StageBuilder::{add_stage,configure_stage,skip_stage}, StageGuard::{enforced,unenforced}, MultiStage::final_mask", multi_stage, bound "140 circuits over chains of up to four stages, all values and coefficients, x and y", weight 20);
    contract!(v, "C12", "enforced stages", "StageGuard::{enforced,unenforced}", enforcement, bound "a stage of two Booleans", weight 2);
    contract!(v, "C12", "bonding circuits", "MultiStage::into_bonding_object, BondingValidator, Stripped", bondings, bound "410 circuits, all values and coefficients, x and y", weight 60);
}
