//! C17: the same program on every back end.
use crate::Rng;
use crate::prog::{Body, Op, Seg, Term, drive, random, spec};
use ragu_arithmetic::Coeff;
use ragu_core::Error;
use ragu_core::drivers::emulator::{Emulator, Wired, Wireless};
use ragu_core::maybe::{Always, Empty, Maybe};
use ragu_primitives::Simulator;
use std::marker::PhantomData;
use std::sync::Arc;
use vcd::{Contract, Model, contract, explore};

/// The program with its gates and constraints satisfied by its own values, and its outputs.
fn repair<M: Model>(b: &Body<M>, ins: Vec<M>) -> (Arc<Body<M>>, Vec<M>) {
    let mut v = vec![M::ONE];
    v.extend(ins);
    let mut ops = vec![];
    let arb = |x: M| Coeff::Arbitrary(x);
    for op in &b.ops {
        let one = |op: Op<M>| Body { ops: vec![op], outs: vec![] };
        let val = |t: &[Term<M>], v: &[M]| {
            let mut s = vec![Seg::default()];
            let _ = spec(&one(Op::Enforce(t.to_vec())), v[1..].to_vec(), &mut s, 0);
            s[0].cons[0]
        };
        let op = match op {
            Op::Gate([a, b, _, d]) => {
                let c = vcd::coeff(a) * vcd::coeff(b);
                let d = if c.is_zero_vartime() { *d } else { Coeff::Zero };
                Op::Gate([*a, *b, arb(c), d])
            }
            Op::Mul([a, b, _]) => Op::Mul([*a, *b, arb(vcd::coeff(a) * vcd::coeff(b))]),
            Op::Enforce(t) => {
                // the constant term that makes it hold, before any gain
                let mut u = vec![Term::W(0, arb(-val(t, &v)))];
                u.extend(t.iter().cloned());
                Op::Enforce(u)
            }
            Op::Equal(i, j) => Op::Equal(*i, if v[*i] == v[*j] { *j } else { *i }),
            Op::Call(b, ins, known) => {
                let (b, o) = repair(b, ins.iter().map(|i| v[*i]).collect());
                v.extend(&o);
                ops.push(Op::Call(b, ins.clone(), *known));
                continue;
            }
            o => o.clone(),
        };
        match &op {
            Op::Gate(g) => v.extend(g.iter().map(vcd::coeff)),
            Op::Mul(g) => v.extend(g.iter().map(vcd::coeff)),
            Op::Alloc(a) | Op::Const(a) => v.push(vcd::coeff(a)),
            Op::Add(t) => v.push(val(t, &v)),
            _ => {}
        }
        ops.push(op);
    }
    (Arc::new(Body { ops, outs: b.outs.clone() }), b.outs.iter().map(|i| v[*i]).collect())
}
fn holds<M: Model>(segs: &[Seg<M>]) -> bool {
    segs.iter().all(|s| s.gates.iter().all(|g| g[0] * g[1] == g[2] && (g[2] * g[3]).is_zero_vartime()) && s.cons.iter().all(|c| c.is_zero_vartime()))
}
fn ends<M: Model>(p: &Arc<Body<M>>) -> (Vec<Seg<M>>, Vec<M>) {
    let mut segs = vec![Seg::default()];
    let want = spec(p, vec![], &mut segs, 0);
    let got = drive(&mut Emulator::<Wired<M>>::extractor(), p, vec![]);
    M::check(got.is_ok(), "the wired emulator runs every program");
    for ((w, v), e) in got.unwrap().into_iter().zip(&want) {
        M::check_eq(w, *e, "each wire of the wired emulator carries the value of its definition");
        M::check_eq(*v.snag(), *e, "values on the wired emulator are those of the program");
    }
    let got = drive(&mut Emulator::<Wireless<Always<()>, M>>::execute(), p, vec![]);
    M::check(got.is_ok(), "the executing emulator runs every program");
    for ((_, v), e) in got.unwrap().into_iter().zip(&want) {
        M::check_eq(*v.snag(), *e, "values on the executing emulator are those of the program, predicted or not");
    }
    M::check(drive(&mut Emulator::<Wireless<Empty, M>>::counter(), p, vec![]).is_ok(), "the counting emulator runs every program");
    M::check(drive(&mut PhantomData::<M>, p, vec![]).is_ok(), "the driver without wires or witness runs every program");
    (segs, want)
}
/// Every program runs on every emulator with the values of its definition, whatever its witness.
fn emulate<M: Model>() {
    M::fork_only(&[]);
    for mut r in if M::SYMBOLIC { (0..40u64).map(|s| Rng(700 + s)).collect() } else { vec![Rng::chosen::<M>()] } {
        let n = 1 + r.below(8);
        let p = random::<M>(&mut r, n, 0, 2, 2);
        ends(&p);
    }
}
/// The simulator accepts exactly the satisfied programs, and counts what they use.
fn simulate<M: Model>() {
    let mut r = Rng::chosen::<M>();
    let n = 1 + r.below(10);
    let mut p = random::<M>(&mut r, n, 0, 2, 2);
    let style = r.below(3);
    if style > 0 {
        p = repair(&p, vec![]).0;
    }
    if style == 2 && !p.ops.is_empty() {
        // one value or constraint spoiled
        let mut b = (*p).clone();
        let k = r.below(b.ops.len());
        match &mut b.ops[k] {
            Op::Gate(g) => g[2 + r.below(2)] = Coeff::Arbitrary(M::input("spoil")),
            Op::Mul(g) => g[r.below(3)] = Coeff::Arbitrary(M::input("spoil")),
            Op::Enforce(t) => t.insert(0, Term::W(0, Coeff::Arbitrary(M::input("spoil")))),
            Op::Alloc(a) => *a = Coeff::Arbitrary(M::input("spoil")),
            _ => {}
        }
        p = Arc::new(b);
    }
    let (segs, want) = ends(&p);
    let ok = holds(&segs);
    let mut seen = None;
    let sim = Simulator::<M>::simulate((), |dr, _| {
        let o = drive(dr, &p, vec![])?;
        seen = Some(o.iter().map(|(w, v)| (*w, *v.as_ref().take())).collect::<Vec<_>>());
        Ok(())
    });
    M::check(sim.is_ok() == ok, "the simulator accepts a program exactly if its gates and constraints hold");
    match sim {
        Ok(mut s) => {
            M::check(seen.unwrap().iter().zip(&want).all(|((w, v), e)| w == e && v == e), "wires and values on the simulator are those of the program");
            M::check(s.num_gates() == segs.iter().map(|s| s.gates.len()).sum::<usize>(), "it counts every gate");
            M::check(s.num_allocations() == segs.iter().map(|s| s.allocs.len()).sum::<usize>(), "it counts every allocation");
            M::check(s.num_constraints() == segs.iter().map(|s| s.cons.len()).sum::<usize>(), "it counts every constraint");
            s.reset();
            M::check(s.num_gates() + s.num_allocations() + s.num_constraints() == 0, "reset starts the counts again");
        }
        Err(e) => M::check(matches!(e, Error::InvalidWitness(_)), "the refusal is an invalid witness"),
    }
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C17", "programs on emulators", "Emulator (wired, executing, counting), PhantomData: gate, alloc, constant, add, enforce_zero, routine", emulate, bound "40 programs of up to 8 operations, routines nested twice", weight 200);
    explore!(v, "C17", "programs on the simulator", "Simulator::{simulate, gate, alloc, constant, add, enforce_zero, routine, reset, counts}", simulate::<pasta_curves::Fp>, bound "random programs of up to 10 operations, satisfied and not", weight 400);
}
