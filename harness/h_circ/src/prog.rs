//! Circuits given as programs: every sequence of driver operations is one, so a contract quantified
//! over programs is quantified over what a circuit can do to a driver.
use crate::Rng;
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, WithAux};
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::routines::{Prediction, Routine};
use ragu_primitives::Element;
use ragu_primitives::vec::{ConstLen, FixedVec};
use std::sync::Arc;
use vcd::Model;

#[derive(Clone, Debug)]
pub enum Term<M: Model> {
    W(usize, Coeff<M>),
    Plus(usize),
    Minus(usize),
    Gain(Coeff<M>),
    Extend(Vec<(usize, Coeff<M>)>),
}
#[derive(Clone, Debug)]
pub enum Op<M: Model> {
    Gate([Coeff<M>; 4]),
    Mul([Coeff<M>; 3]),
    Alloc(Coeff<M>),
    Const(Coeff<M>),
    Add(Vec<Term<M>>),
    Enforce(Vec<Term<M>>),
    Equal(usize, usize),
    Call(Arc<Body<M>>, Vec<usize>, bool),
    Drop(usize),
}
#[derive(Clone, Debug)]
pub struct Body<M: Model> {
    pub ops: Vec<Op<M>>,
    pub outs: Vec<usize>,
}

type Val<'dr, D> = (<D as Driver<'dr>>::Wire, DriverValue<D, <D as Driver<'dr>>::F>);

fn lin<'a, M: Model, W: Clone + 'a, L: LinearExpression<W, M>>(mut l: L, t: &[Term<M>], w: &dyn Fn(usize) -> &'a W) -> L {
    for t in t {
        l = match t {
            Term::W(i, c) => l.add_term(w(*i), *c),
            Term::Plus(i) => l.add(w(*i)),
            Term::Minus(i) => l.sub(w(*i)),
            Term::Gain(c) => l.gain(*c),
            Term::Extend(v) => l.extend(v.iter().map(|(i, c)| (w(*i).clone(), *c))),
        };
    }
    l
}
fn lin_value<M: Model>(t: &[Term<M>], v: &dyn Fn(usize) -> M) -> M {
    let (mut s, mut g) = (M::ZERO, M::ONE);
    for t in t {
        match t {
            Term::W(i, c) => s += v(*i) * vcd::coeff(c) * g,
            Term::Plus(i) => s += v(*i) * g,
            Term::Minus(i) => s -= v(*i) * g,
            Term::Gain(c) => g *= vcd::coeff(c),
            Term::Extend(l) => l.iter().for_each(|(i, c)| s += v(*i) * vcd::coeff(c) * g),
        }
    }
    s
}

pub fn drive<'dr, M: Model, D: Driver<'dr, F = M>>(dr: &mut D, body: &Arc<Body<M>>, ins: Vec<Val<'dr, D>>) -> Result<Vec<Val<'dr, D>>> {
    let mut live: Vec<Option<Val<'dr, D>>> = vec![Some((D::ONE, D::just(|| M::ONE)))];
    live.extend(ins.into_iter().map(Some));
    for op in &body.ops {
        match op {
            Op::Gate([a, b, c, d]) => {
                let (wa, wb, wc, wd) = dr.gate(|| Ok((*a, *b, *c, *d)))?;
                for (w, v) in [(wa, a), (wb, b), (wc, c), (wd, d)] {
                    live.push(Some((w, D::just(|| vcd::coeff(v)))));
                }
            }
            Op::Mul([a, b, c]) => {
                let (wa, wb, wc) = dr.mul(|| Ok((*a, *b, *c)))?;
                for (w, v) in [(wa, a), (wb, b), (wc, c)] {
                    live.push(Some((w, D::just(|| vcd::coeff(v)))));
                }
            }
            Op::Alloc(a) => {
                let w = dr.alloc(|| Ok(*a))?;
                live.push(Some((w, D::just(|| vcd::coeff(a)))));
            }
            Op::Const(a) => {
                let w = dr.constant(*a);
                live.push(Some((w, D::just(|| vcd::coeff(a)))));
            }
            Op::Add(t) => {
                let w = {
                    let f = |i: usize| &live[i].as_ref().expect("live wire").0;
                    dr.add(|l| lin(l, t, &f))
                };
                let v = D::just(|| lin_value(t, &|i| *live[i].as_ref().unwrap().1.snag()));
                live.push(Some((w, v)));
            }
            Op::Enforce(t) => {
                let f = |i: usize| &live[i].as_ref().expect("live wire").0;
                dr.enforce_zero(|l| lin(l, t, &f))?;
            }
            Op::Equal(i, j) => {
                let f = |i: usize| &live[i].as_ref().expect("live wire").0;
                dr.enforce_equal(f(*i), f(*j))?;
            }
            Op::Call(b, ins, known) => {
                let ins: Vec<Val<'dr, D>> = ins.iter().map(|i| live[*i].as_ref().expect("live wire")).map(|w| (w.0.clone(), w.1.as_ref().map(|v| *v))).collect();
                macro_rules! go {
                    ($($i:literal $o:literal),*) => {
                        match (ins.len(), b.outs.len()) {
                            $(($i, $o) => call::<M, D, $i, $o>(dr, b, ins, *known)?,)*
                            _ => unreachable!("routine arity"),
                        }
                    };
                }
                let outs = go!(0 0, 0 1, 0 2, 1 0, 1 1, 1 2, 2 0, 2 1, 2 2);
                live.extend(outs.into_iter().map(Some));
            }
            Op::Drop(i) => live[*i] = None,
        }
    }
    Ok(body.outs.iter().map(|i| live[*i].as_ref().expect("live wire")).map(|w| (w.0.clone(), w.1.as_ref().map(|v| *v))).collect())
}

fn call<'dr, M: Model, D: Driver<'dr, F = M>, const I: usize, const O: usize>(dr: &mut D, b: &Arc<Body<M>>, ins: Vec<Val<'dr, D>>, known: bool) -> Result<Vec<Val<'dr, D>>> {
    let input: FixedVec<Element<'dr, D>, ConstLen<I>> = FixedVec::new(ins.into_iter().map(|(w, v)| Element::promote(w, v)).collect())?;
    let out = dr.routine(Sub::<M, I, O> { body: b.clone(), known }, input)?;
    Ok(out.iter().map(|e| (e.wire().clone(), e.value().map(|v| *v))).collect())
}

#[derive(Clone)]
pub struct Sub<M: Model, const I: usize, const O: usize> {
    pub body: Arc<Body<M>>,
    pub known: bool,
}
impl<M: Model, const I: usize, const O: usize> Routine<M> for Sub<M, I, O> {
    type Input = Kind![M; FixedVec<Element<'_, _>, ConstLen<I>>];
    type Output = Kind![M; FixedVec<Element<'_, _>, ConstLen<O>>];
    type Aux<'dr> = u64;
    fn execute<'dr, D: Driver<'dr, F = M>>(&self, dr: &mut D, input: Bound<'dr, D, Self::Input>, aux: DriverValue<D, u64>) -> Result<Bound<'dr, D, Self::Output>> {
        aux.map(|a| assert_eq!(a, 77, "the auxiliary value of predict reaches execute"));
        let ins = input.iter().map(|e| (e.wire().clone(), e.value().map(|v| *v))).collect();
        FixedVec::new(drive(dr, &self.body, ins)?.into_iter().map(|(w, v)| Element::promote(w, v)).collect())
    }
    fn predict<'dr, D: Driver<'dr, F = M, Wire = ()>>(&self, _dr: &mut D, input: &Bound<'dr, D, Self::Input>) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, u64>>> {
        let aux = D::just(|| 77u64);
        if !self.known {
            return Ok(Prediction::Unknown(aux));
        }
        let outs: DriverValue<D, Vec<M>> = D::just(|| {
            let ins = input.iter().map(|e| *e.value().take()).collect();
            spec(&self.body, ins, &mut vec![Seg::default()], 0)
        });
        let out = FixedVec::new((0..O).map(|k| Element::promote((), outs.as_ref().map(|v| v[k]))).collect())?;
        Ok(Prediction::Known(out, aux))
    }
}

/// A program as a circuit with O public outputs.
#[derive(Clone)]
pub struct Prog<M: Model, const O: usize>(pub Arc<Body<M>>);
impl<M: Model, const O: usize> Circuit<M> for Prog<M, O> {
    type Instance<'s> = Vec<M>;
    type Witness<'s> = u32;
    type Output = Kind![M; FixedVec<Element<'_, _>, ConstLen<O>>];
    type Aux<'s> = u32;
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, dr: &mut D, instance: DriverValue<D, Vec<M>>) -> Result<Bound<'dr, D, Self::Output>>
    where
        Self: 'dr,
    {
        FixedVec::new((0..O).map(|i| Element::alloc(dr, instance.as_ref().map(|v| v[i]))).collect::<Result<_>>()?)
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = M>>(&self, dr: &mut D, w: DriverValue<D, u32>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, u32>>>
    where
        Self: 'dr,
    {
        let out = FixedVec::new(drive(dr, &self.0, vec![])?.into_iter().map(|(w, v)| Element::promote(w, v)).collect())?;
        Ok(WithAux::new(out, w))
    }
}

/// What a segment must contain, read off the program.
#[derive(Clone, Debug, Default)]
pub struct Seg<M> {
    pub gates: Vec<[M; 4]>,
    pub allocs: Vec<M>,
    /// the value of each linear constraint, in order
    pub cons: Vec<M>,
}
impl<M> Seg<M> {
    pub fn num_gates(&self) -> usize {
        self.gates.len() + self.allocs.len().div_ceil(2)
    }
}
pub fn spec<M: Model>(b: &Body<M>, ins: Vec<M>, segs: &mut Vec<Seg<M>>, at: usize) -> Vec<M> {
    let mut v = vec![M::ONE];
    v.extend(ins);
    for op in &b.ops {
        match op {
            Op::Gate(g) => {
                let g = g.map(|c| vcd::coeff(&c));
                segs[at].gates.push(g);
                v.extend(g);
            }
            Op::Mul(g) => {
                let g = g.map(|c| vcd::coeff(&c));
                segs[at].gates.push([g[0], g[1], g[2], M::ZERO]);
                v.extend(g);
            }
            Op::Alloc(a) => {
                segs[at].allocs.push(vcd::coeff(a));
                v.push(vcd::coeff(a));
            }
            Op::Const(a) => v.push(vcd::coeff(a)),
            Op::Add(t) => {
                let x = lin_value(t, &|i| v[i]);
                v.push(x);
            }
            Op::Enforce(t) => {
                let x = lin_value(t, &|i| v[i]);
                segs[at].cons.push(x);
            }
            Op::Equal(i, j) => {
                let x = v[*i] - v[*j];
                segs[at].cons.push(x);
            }
            Op::Call(b, ins, _) => {
                segs.push(Seg::default());
                let k = segs.len() - 1;
                let o = spec(b, ins.iter().map(|i| v[*i]).collect(), segs, k);
                v.extend(o);
            }
            Op::Drop(_) => {}
        }
    }
    b.outs.iter().map(|i| v[*i]).collect()
}
/// The segments of the whole circuit: system gate, body, outputs, and the constraint on ONE.
pub fn circuit_spec<M: Model>(b: &Body<M>, alpha: M) -> (Vec<Seg<M>>, Vec<M>) {
    let mut segs = vec![Seg { gates: vec![[M::ZERO, M::ONE, M::ZERO, alpha]], ..Default::default() }];
    let outs = spec(b, vec![], &mut segs, 0);
    segs[0].cons.extend(outs.iter().copied());
    segs[0].cons.push(M::ONE);
    (segs, outs)
}

// ------------------------------------------------------------------ programs

/// Coefficients: in a proof every one is a fresh unknown or one of the named constants.
pub fn coef<M: Model>(r: &mut Rng) -> Coeff<M> {
    match r.below(8) {
        0 => Coeff::One,
        1 => Coeff::NegativeOne,
        2 => Coeff::Two,
        3 => Coeff::Zero,
        4 => Coeff::NegativeArbitrary(M::input("k")),
        _ => Coeff::Arbitrary(M::input("k")),
    }
}
pub fn wit<M: Model>(r: &mut Rng) -> Coeff<M> {
    match r.below(10) {
        0 => Coeff::Zero,
        1 => Coeff::One,
        2 => Coeff::NegativeArbitrary(M::input("w")),
        _ => Coeff::Arbitrary(M::input("w")),
    }
}
fn terms<M: Model>(r: &mut Rng, live: &[usize]) -> Vec<Term<M>> {
    (0..r.below(5))
        .map(|_| {
            let w = live[r.below(live.len())];
            match r.below(7) {
                0 => Term::Plus(w),
                1 => Term::Minus(w),
                2 => Term::Gain(coef(r)),
                3 => Term::Extend((0..r.below(3)).map(|_| (live[r.below(live.len())], coef(r))).collect()),
                _ => Term::W(w, coef(r)),
            }
        })
        .collect()
}
/// The general linear form over everything live: unknown coefficients, in two gain groups.
pub fn full_terms<M: Model>(live: &[usize]) -> Vec<Term<M>> {
    let h = live.len() / 2;
    let mut t: Vec<Term<M>> = live[..h].iter().map(|i| Term::W(*i, Coeff::Arbitrary(M::input("k")))).collect();
    t.push(Term::Gain(Coeff::Arbitrary(M::input("g"))));
    t.extend(live[h..].iter().map(|i| Term::W(*i, Coeff::NegativeArbitrary(M::input("k")))));
    if let Some(i) = live.last() {
        t.push(Term::Minus(*i));
    }
    t
}
pub struct Builder<M: Model> {
    pub ops: Vec<Op<M>>,
    pub live: Vec<usize>,
    pub next: usize,
}
impl<M: Model> Builder<M> {
    pub fn new(ins: usize) -> Self {
        Builder { ops: vec![], live: (0..=ins).collect(), next: ins + 1 }
    }
    pub fn push(&mut self, op: Op<M>) {
        let new = match &op {
            Op::Gate(_) => 4,
            Op::Mul(_) => 3,
            Op::Alloc(_) | Op::Const(_) | Op::Add(_) => 1,
            Op::Call(b, ..) => b.outs.len(),
            _ => 0,
        };
        if let Op::Drop(i) = &op {
            self.live.retain(|j| j != i);
        }
        self.live.extend(self.next..self.next + new);
        self.next += new;
        self.ops.push(op);
    }
    pub fn last(&self, k: usize) -> Vec<usize> {
        self.live[self.live.len().saturating_sub(k)..].to_vec()
    }
    pub fn body(self, outs: usize) -> Arc<Body<M>> {
        let outs = (0..outs).map(|k| self.live[(self.live.len() - 1).saturating_sub(2 * k)]).collect();
        Arc::new(Body { ops: self.ops, outs })
    }
}
pub fn random<M: Model>(r: &mut Rng, ops: usize, ins: usize, outs: usize, depth: usize) -> Arc<Body<M>> {
    let mut b = Builder::<M>::new(ins);
    for _ in 0..ops {
        let w = |r: &mut Rng| wit::<M>(r);
        let any = |b: &Builder<M>, r: &mut Rng| b.live[r.below(b.live.len())];
        let op = match r.below(if depth > 0 { 16 } else { 12 }) {
            0 | 1 => Op::Gate([w(r), w(r), w(r), w(r)]),
            2 => Op::Mul([w(r), w(r), w(r)]),
            3..=5 => Op::Alloc(w(r)),
            6 => Op::Const(coef(r)),
            7 | 8 => Op::Add(terms(r, &b.live)),
            9 => Op::Enforce(terms(r, &b.live)),
            10 => {
                let (i, j) = (any(&b, r), any(&b, r));
                Op::Equal(i, j)
            }
            11 => match any(&b, r) {
                0 => continue,
                i => Op::Drop(i),
            },
            _ => {
                let (i, o, n) = (r.below(3), r.below(3), r.below(5));
                let sub = random(r, n, i, o, depth - 1);
                let known = r.below(2) == 0;
                let ins = (0..i).map(|_| any(&b, r)).collect();
                Op::Call(sub, ins, known)
            }
        };
        b.push(op);
    }
    let o = (0..outs).map(|_| b.live[r.below(b.live.len())]).collect();
    Arc::new(Body { ops: b.ops, outs: o })
}
pub const ALPHABET: usize = 10;
/// The k-th generic operation, over everything live.
pub fn letter<M: Model>(b: &mut Builder<M>, k: usize) {
    let u = || Coeff::Arbitrary(M::input("w"));
    let op = match k {
        0 => Op::Gate([u(), u(), u(), u()]),
        1 => Op::Mul([u(), u(), u()]),
        2 => Op::Alloc(u()),
        3 => Op::Add(full_terms(&b.live)),
        4 => Op::Enforce(full_terms(&b.live)),
        5 => {
            let l = b.last(2);
            Op::Equal(l[0], l[l.len() - 1])
        }
        6 => match b.last(1)[0] {
            0 => Op::Const(u()),
            i => Op::Drop(i),
        },
        7 | 8 => {
            let ins = b.last(2);
            let mut s = Builder::<M>::new(ins.len());
            for k in [2, 4, 3] {
                letter(&mut s, k);
            }
            let mut inner = Builder::<M>::new(1);
            for k in [4, 2, 1] {
                letter(&mut inner, k);
            }
            if k == 8 {
                s.push(Op::Call(inner.body(1), vec![1], false));
                letter(&mut s, 2);
            }
            letter(&mut s, 5);
            Op::Call(s.body(2), ins, k == 8)
        }
        _ => Op::Const(u()),
    };
    b.push(op);
}
