//! Contracts of symbolic coefficients and linear expressions.
use ragu_arithmetic::Coeff;
use ragu_core::drivers::{DirectSum, LinearExpression};
use vcd::{Contract, Model, coeff, contract};

fn kinds<M: Model>(n: &str) -> Vec<Coeff<M>> {
    vec![
        Coeff::Zero,
        Coeff::One,
        Coeff::Two,
        Coeff::NegativeOne,
        Coeff::Arbitrary(M::input(&format!("{n}a"))),
        Coeff::NegativeArbitrary(M::input(&format!("{n}n"))),
    ]
}
fn value<M: Model>() {
    for c in kinds::<M>("c") {
        M::check_eq(c.value(), coeff(&c), "value: each representation denotes its value");
    }
    let x = M::input("x");
    M::check_eq(Coeff::from(x).value(), x, "value: a field element converts to itself");
}
fn is_zero<M: Model>() {
    for c in kinds::<M>("c") {
        let v = coeff(&c);
        if c.is_zero() {
            v.check_zero("is_zero: true only for zero");
        } else {
            M::check(!v.decide_zero(), "is_zero: false only for nonzero");
        }
    }
}
fn mul<M: Model>() {
    for a in kinds::<M>("a") {
        for b in kinds::<M>("b") {
            M::check_eq((a * b).value(), coeff(&a) * coeff(&b), "mul: the product denotes the product");
        }
    }
}
fn add<M: Model>() {
    for a in kinds::<M>("a") {
        for b in kinds::<M>("b") {
            M::check_eq((a + b).value(), coeff(&a) + coeff(&b), "add: the sum denotes the sum");
        }
    }
}
/// Every state (value, gain) of the builder: the value is arbitrary, the gain of any representation.
fn states<M: Model>() -> Vec<(DirectSum<M>, M, M)> {
    kinds::<M>("gain")
        .into_iter()
        .map(|g| {
            let v = M::input("v");
            (DirectSum::default().add(&v).gain(g), v, coeff(&g))
        })
        .collect()
}
fn initial<M: Model>() {
    let d = DirectSum::<M>::default();
    d.value().check_zero("the empty expression is zero");
    let w = M::input("w");
    M::check_eq(d.add(&w).value(), w, "the initial gain is one");
}
fn add_term<M: Model>() {
    for c in kinds::<M>("c") {
        for (s, v, g) in states::<M>() {
            let w = M::input("w");
            M::check_eq(s.add_term(&w, c).value(), v + w * coeff(&c) * g, "add_term: adds wire * coefficient * gain");
        }
    }
    for (s, v, g) in states::<M>() {
        M::check_eq(s.value(), v, "value: changing the gain leaves what was added before");
        let _ = g;
    }
}
fn gain_kept<M: Model>() {
    for c in kinds::<M>("c") {
        for (s, v, g) in states::<M>() {
            let (w, u) = (M::input("w"), M::input("u"));
            M::check_eq(s.add_term(&w, c).add(&u).value(), v + w * coeff(&c) * g + u * g, "add_term: keeps the gain");
        }
    }
}
fn gain<M: Model>() {
    for c in kinds::<M>("c") {
        for (s, v, g) in states::<M>() {
            let w = M::input("w");
            let s = s.gain(c);
            M::check_eq(s.value(), v, "gain: leaves the value");
            M::check_eq(s.add(&w).value(), v + w * g * coeff(&c), "gain: multiplies the gain");
        }
    }
}
fn derived<M: Model>() {
    for (s, v, g) in states::<M>() {
        let w = M::input("w");
        M::check_eq(s.add(&w).value(), v + w * g, "add: adds wire * gain");
    }
    for (s, v, g) in states::<M>() {
        let w = M::input("w");
        M::check_eq(s.sub(&w).value(), v - w * g, "sub: subtracts wire * gain");
    }
    for n in 0..4 {
        for (s, v, g) in states::<M>() {
            let t: Vec<(M, Coeff<M>)> = kinds::<M>("t").into_iter().rev().take(n).map(|c| (M::input("w"), c)).collect();
            let want = t.iter().fold(v, |a, (w, c)| a + *w * coeff(c) * g);
            M::check_eq(s.extend(t).value(), want, "extend: adds every term, scaled by the gain");
        }
    }
}
/// Our own expression type: the provided methods of the trait call add_term once per term, in order.
#[derive(Default)]
struct Log<M: Model>(Vec<(M, Coeff<M>)>);
impl<M: Model> LinearExpression<M, M> for Log<M> {
    fn add_term(mut self, w: &M, c: Coeff<M>) -> Self {
        self.0.push((*w, c));
        self
    }
    fn gain(self, _: Coeff<M>) -> Self {
        self
    }
}
fn provided<M: Model>() {
    let w = crate::ins::<M>("w", 4);
    let k = kinds::<M>("c");
    let l = Log(vec![]).add(&w[0]).extend(vec![(w[1], k[4]), (w[2], k[5])]).sub(&w[3]);
    let want = [(w[0], M::ONE), (w[1], coeff(&k[4])), (w[2], coeff(&k[5])), (w[3], -M::ONE)];
    M::check(l.0.len() == 4, "provided methods: one term each");
    for ((w, c), (x, y)) in l.0.iter().zip(want) {
        M::check_eq(*w, x, "provided methods: wires in order");
        M::check_eq(coeff(c), y, "provided methods: coefficients in order");
    }
}
/// Arbitrary builder histories (the induction above makes this redundant; it is the native search).
fn histories<M: Model>() {
    let (mut s, mut v, mut g) = (DirectSum::<M>::default(), M::ZERO, M::ONE);
    let n = if M::SYMBOLIC { 0 } else { 12 };
    for _ in 0..n {
        let c = kinds::<M>("c")[crate::small::<M>("k", 8) % 6];
        if M::flip("gain?") {
            s = s.gain(c);
            g *= coeff(&c);
        } else {
            let w = M::input("w");
            s = s.add_term(&w, c);
            v += w * g * coeff(&c);
        }
    }
    M::check_eq(s.value(), v, "histories: the weighted sum that was written down");
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C03", "Coeff::value", "ragu_arithmetic Coeff::{value,from}", value);
    contract!(v, "C03", "Coeff::is_zero", "ragu_arithmetic Coeff::is_zero", is_zero);
    contract!(v, "C03", "Coeff::mul", "ragu_arithmetic Coeff::mul", mul);
    contract!(v, "C03", "Coeff::add", "ragu_arithmetic Coeff::add", add);
    contract!(v, "C03", "DirectSum::default", "ragu_core DirectSum::{default,value}", initial);
    contract!(v, "C03", "DirectSum::add_term", "ragu_core DirectSum::add_term", add_term);
    contract!(v, "C03", "DirectSum::add_term keeps the gain", "ragu_core DirectSum::add_term", gain_kept);
    contract!(v, "C03", "DirectSum::gain", "ragu_core DirectSum::gain", gain);
    contract!(v, "C03", "DirectSum derived methods", "ragu_core LinearExpression::{add,sub,extend}", derived);
    contract!(v, "C03", "LinearExpression provided methods", "ragu_core LinearExpression::{add,sub,extend}", provided);
    contract!(v, "C03", "builder histories", "ragu_core DirectSum", histories, bound "12 calls, concrete");
}
