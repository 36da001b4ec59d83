//! Contracts of the boolean and field-element gadgets.
use ragu_arithmetic::Coeff;
use ragu_core::drivers::Driver;
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::Maybe;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::{Boolean, Element, GadgetExt, multiadd, multipack};
use vcd::{Contract, Model, Vc, W, contract, just};

pub type El<M> = Element<'static, Vc<M>>;
pub type Bo<M> = Boolean<'static, Vc<M>>;

/// An element holding an arbitrary value, its wire arbitrary for the adversary.
pub fn elem<M: Model>(dr: &mut Vc<M>, name: &str) -> El<M> {
    Element::alloc(dr, just(M::input(name))).unwrap()
}
pub fn h<M: Model>(e: &El<M>) -> M {
    e.wire().h
}
pub fn v<M: Model>(e: &El<M>) -> M {
    *e.value().take()
}
pub fn a<M: Model>(e: &El<M>) -> M {
    e.wire().adv
}
/// The gadget's value and wire are `hon`; any satisfying assignment makes its wire `adv`.
pub fn post<M: Model>(e: &El<M>, hon: M, adv: M) {
    M::check_eq(v(e), hon, "value: the output's witness value is the documented one");
    M::check_eq(h(e), hon, "wire: the output wire carries the documented value");
    M::check_adv_eq(a(e), adv, "soundness: the constraints force the output wire");
}
pub fn boolean<M: Model>(dr: &mut Vc<M>, name: &str) -> Bo<M> {
    let b = M::flip(name);
    Boolean::alloc(dr, just(b)).unwrap()
}
pub fn bit<M: Model>(b: bool) -> M {
    if b { M::ONE } else { M::ZERO }
}
pub fn bpost<M: Model>(b: &Bo<M>, hon: bool, adv: M) {
    M::check(b.value().take() == hon, "value: the output's witness value is the documented one");
    M::check_eq(b.wire().h, bit(hon), "wire: the output wire carries the documented value");
    M::check_adv_eq(b.wire().adv, adv, "soundness: the constraints force the output wire");
}

pub fn coeffs<M: Model>() -> Vec<(Coeff<M>, M)> {
    let k = M::input("k");
    vec![
        (Coeff::Zero, M::ZERO),
        (Coeff::One, M::ONE),
        (Coeff::Two, M::ONE + M::ONE),
        (Coeff::NegativeOne, -M::ONE),
        (Coeff::Arbitrary(k), k),
        (Coeff::NegativeArbitrary(k), -k),
    ]
}

fn alloc<M: Model>() {
    let dr = &mut Vc::new();
    let x = M::input("x");
    let e = Element::alloc(dr, just(x)).unwrap();
    post(&e, x, a(&e));
}
fn alloc_square<M: Model>() {
    let dr = &mut Vc::new();
    let x = M::input("x");
    let (e, s) = Element::alloc_square(dr, just(x)).unwrap();
    post(&e, x, a(&e));
    post(&s, x * x, a(&e) * a(&e));
}
fn constants<M: Model>() {
    let dr = &mut Vc::<M>::new();
    post(&Element::one(), M::ONE, M::ONE);
    let z = Element::zero(dr);
    post(&z, M::ZERO, M::ZERO);
    let k = M::input("k");
    let c = Element::constant(dr, k);
    post(&c, k, k);
    let w = W { h: M::input("h"), adv: M::input("w") };
    let p: El<M> = Element::promote(w.clone(), just(k));
    M::check_eq(v(&p), k, "promote keeps the value");
    M::check_eq(h(&p), w.h, "promote keeps the wire");
    M::check_adv_eq(a(&p), w.adv, "promote keeps the wire");
}
fn mul<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let (x, y) = (elem(dr, "x"), elem(dr, "y"));
    let z = x.mul(dr, &y).unwrap();
    post(&z, h(&x) * h(&y), a(&x) * a(&y));
}
fn square<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let x = elem(dr, "x");
    let z = x.square(dr).unwrap();
    post(&z, h(&x) * h(&x), a(&x) * a(&x));
}
fn linear<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let (x, y) = (elem(dr, "x"), elem(dr, "y"));
    let (hx, hy, ax, ay) = (h(&x), h(&y), a(&x), a(&y));
    post(&x.add(dr, &y), hx + hy, ax + ay);
    post(&x.sub(dr, &y), hx - hy, ax - ay);
    post(&x.negate(dr), -hx, -ax);
    post(&x.double(dr), hx + hx, ax + ax);
    for (c, k) in coeffs::<M>() {
        post(&x.scale(dr, c.clone()), hx * k, ax * k);
        post(&x.add_coeff(dr, &y, c), hx + hy * k, ax + ay * k);
    }
}
fn enforce_zero<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let x = elem(dr, "x");
    h(&x).assume_zero();
    x.enforce_zero(dr).unwrap();
    a(&x).check_adv("soundness: the constraint forces the element to zero");
}
fn invert<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let x = elem(dr, "x");
    if h(&x).decide_zero() {
        M::check(x.invert(dr).is_err(), "inverting zero is refused");
        return;
    }
    let i = x.invert(dr).unwrap();
    M::check_eq(v(&i) * h(&x), M::ONE, "value: the output's witness value is the documented one");
    M::check_eq(h(&i) * h(&x), M::ONE, "wire: the output wire carries the documented value");
    M::check_adv_eq(a(&i) * a(&x), M::ONE, "soundness: the constraints force the output wire");
}
fn invert_with<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let x = elem(dr, "x");
    let k = M::input("inverse");
    (h(&x) * k - M::ONE).assume_zero();
    let i = x.invert_with(dr, just(k)).unwrap();
    M::check_eq(v(&i), k, "value: the output's witness value is the documented one");
    M::check_eq(h(&i) * h(&x), M::ONE, "wire: the output wire carries the documented value");
    M::check_adv_eq(a(&i) * a(&x), M::ONE, "soundness: the constraints force the output wire");
}
fn div_nonzero<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let (x, y) = (elem(dr, "x"), elem(dr, "y"));
    if h(&y).decide_zero() {
        M::check(x.div_nonzero(dr, &y).is_err(), "dividing by zero is refused");
        return;
    }
    let q = x.div_nonzero(dr, &y).unwrap();
    M::check_eq(v(&q) * h(&y), h(&x), "value: the output's witness value is the documented one");
    M::check_eq(h(&q) * h(&y), h(&x), "wire: the output wire carries the documented value");
    M::check_adv_eq(a(&q) * a(&y), a(&x), "soundness: the constraints force the output wire (0/0 unconstrained, as documented)");
}
fn zero_test<M: Model>(case: u8) {
    let dr = &mut Vc::<M>::new();
    let (x, y) = (elem(dr, "x"), elem(dr, "y"));
    let equal = case >= 2;
    let (hd, ad) = if equal { (h(&x) - h(&y), a(&x) - a(&y)) } else { (h(&x), a(&x)) };
    if case % 2 == 0 { ad.constrain_adv() } else { ad.constrain_adv_nonzero() }
    if !M::SYMBOLIC {
        // the concrete adversary starts from the honest values
        if M::flip("eq") && hd != M::ZERO { return; }
    }
    let b = if equal { x.is_equal(dr, &y).unwrap() } else { x.is_zero(dr).unwrap() };
    bpost(&b, hd.decide_zero(), bit(case % 2 == 0));
}
fn is_zero_0<M: Model>() {
    zero_test::<M>(0)
}
fn is_zero_1<M: Model>() {
    zero_test::<M>(1)
}
fn is_equal_0<M: Model>() {
    zero_test::<M>(2)
}
fn is_equal_1<M: Model>() {
    zero_test::<M>(3)
}
fn sums<M: Model>() {
    for n in 0..8usize {
        let dr = &mut Vc::<M>::new();
        let xs: Vec<El<M>> = (0..n).map(|_| elem(dr, "x")).collect();
        let s = elem(dr, "s");
        let ks: Vec<M> = (0..n).map(|_| M::input("c")).collect();
        let sum = |f: &dyn Fn(&El<M>) -> M| xs.iter().fold(M::ZERO, |t, x| t + f(x));
        post(&Element::sum(dr, xs.iter()), sum(&h), sum(&a));
        let dot = |f: &dyn Fn(&El<M>) -> M| xs.iter().zip(&ks).fold(M::ZERO, |t, (x, k)| t + f(x) * *k);
        post(&multiadd(dr, &xs, &ks), dot(&h), dot(&a));
        let horner = |f: &dyn Fn(&El<M>) -> M| {
            (0..n).fold(M::ZERO, |t, i| {
                let mut p = f(&xs[i]);
                for _ in i + 1..n {
                    p *= f(&s);
                }
                t + p
            })
        };
        post(&Element::fold(dr, xs.iter(), &s).unwrap(), horner(&h), horner(&a));
    }
}
fn multiadd_mismatch<M: Model>() {
    for (n, m) in [(0, 1), (1, 0), (3, 2), (2, 3)] {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let dr = &mut Vc::<M>::new();
            let xs: Vec<El<M>> = (0..n).map(|_| elem(dr, "x")).collect();
            let ks: Vec<M> = (0..m).map(|_| M::input("c")).collect();
            multiadd(dr, &xs, &ks);
        }));
        M::check(r.is_err(), "mismatched lengths are refused");
    }
}
fn root_of_unity<M: Model>() {
    for k in 0..6u32 {
        let dr = &mut Vc::<M>::new();
        let x = elem(dr, "x");
        (h(&x) - M::ONE).assume_zero();
        x.enforce_root_of_unity(dr, k).unwrap();
        (a(&x).pow_vartime([1u64 << k]) - M::ONE).check_adv("soundness: the element is a 2^k-th root of unity");
    }
}
fn root_of_unity_complete<M: Model>() {
    // every 2^k-th root of unity satisfies the constraints
    for k in 0..=M::S {
        let mut w = M::ROOT_OF_UNITY;
        for _ in k..M::S {
            w = w.square();
        }
        for e in [1u64, 3] {
            let dr = &mut Vc::<M>::new();
            let x = Element::alloc(dr, just(w.pow_vartime([e]))).unwrap();
            x.enforce_root_of_unity(dr, k).unwrap();
        }
    }
}
fn root_of_unity_concrete<M: Model>() {
    // and no other element does: the honest run reports exactly the roots
    let k = 5u32;
    let x = M::input("x");
    let y = x.pow_vartime([1u64 << k]);
    y.decide_zero();
    let dr = &mut Vc::<M>::new();
    let e = Element::alloc(dr, just(x)).unwrap();
    (y - M::ONE).assume_zero();
    e.enforce_root_of_unity(dr, k).unwrap();
}

fn b_alloc<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let x = M::flip("b");
    let b = Boolean::alloc(dr, just(x)).unwrap();
    let w = b.wire().adv;
    bpost(&b, x, w);
    (w * w - w).check_adv("soundness: the wire is zero or one");
    M::check_eq(v(&b.element()), bit(x), "element(): same value");
    M::check_eq(h(&b.element()), bit(x), "element(): same wire");
    M::check_adv_eq(a(&b.element()), w, "element(): same wire");
}
fn b_logic<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let (x, y) = (boolean(dr, "x"), boolean(dr, "y"));
    let (vx, vy) = (x.value().take(), y.value().take());
    let (ax, ay) = (x.wire().adv, y.wire().adv);
    bpost(&x.not(dr), !vx, M::ONE - ax);
    bpost(&x.and(dr, &y).unwrap(), vx && vy, ax * ay);
}
fn b_select<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let c = boolean(dr, "c");
    let (x, y) = (elem(dr, "x"), elem(dr, "y"));
    let vc = c.value().take();
    let s = c.conditional_select(dr, &x, &y).unwrap();
    let ac = c.wire().adv;
    post(&s, if vc { h(&y) } else { h(&x) }, (M::ONE - ac) * a(&x) + ac * a(&y));
}
fn b_cond_equal<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let c = boolean(dr, "c");
    let (x, y) = (elem(dr, "x"), elem(dr, "y"));
    if c.value().take() {
        (h(&x) - h(&y)).assume_zero();
    }
    c.conditional_enforce_equal(dr, &x, &y).unwrap();
    (c.wire().adv * (a(&x) - a(&y))).check_adv("soundness: a true condition forces equality");
}
fn pack<M: Model>(bits: &[bool]) {
    let cap = M::CAPACITY as usize;
    let dr = &mut Vc::<M>::new();
    let bs: Vec<Bo<M>> = bits.iter().map(|b| Boolean::alloc(dr, just(*b)).unwrap()).collect();
    let out = multipack(dr, &bs).unwrap();
    M::check(out.len() == bits.len().div_ceil(cap), "one element per CAPACITY bits");
    for (ch, e) in bs.chunks(cap).zip(&out) {
        let (mut hon, mut adv, mut w) = (M::ZERO, M::ZERO, M::ONE);
        for b in ch {
            hon += w * bit::<M>(b.value().take());
            adv += w * b.wire().adv;
            w = w + w;
        }
        post(e, hon, adv);
    }
}
fn multipack_short<M: Model>() {
    for n in 0..4 {
        let bits: Vec<bool> = (0..n).map(|_| M::flip("bit")).collect();
        pack::<M>(&bits);
    }
}
fn multipack_long<M: Model>() {
    let cap = M::CAPACITY as usize;
    for n in [cap - 1, cap, cap + 1, 2 * cap, 2 * cap + 3] {
        let bits: Vec<bool> = (0..n).map(|i| (i * i + i / 3) % 5 < 2).collect();
        pack::<M>(&bits);
        pack::<M>(&vec![true; n]);
    }
}
fn consistent<M: Model>() {
    let dr = &mut Vc::<M>::new();
    // an unconstrained wire claimed to be a boolean becomes constrained
    let b = boolean(dr, "b");
    let w = b.wire().clone();
    b.enforce_consistent(dr).unwrap();
    (w.adv * w.adv - w.adv).check_adv("soundness: consistency of a boolean forces it to be boolean");
    let x = elem(dr, "x");
    x.enforce_consistent(dr).unwrap();
    let mut buf: Vec<El<M>> = vec![];
    b.write(dr, &mut buf).unwrap();
    x.write(dr, &mut buf).unwrap();
    M::check(buf.len() == 2, "each writes one element");
    post(&buf[0], bit(b.value().take()), w.adv);
    post(&buf[1], h(&x), a(&x));
    let mut count = 0usize;
    x.write(dr, &mut count).unwrap();
    b.write(dr, &mut count).unwrap();
    M::check(count == 2, "each writes one element");
}
fn consistent_boolean<M: Model>() {
    // consistency constrains a boolean whose wire was never constrained (a mapped-in gadget)
    use ragu_primitives::promotion::Demoted;
    let dr = &mut Vc::<M>::new();
    let x = M::flip("b");
    let w = dr.alloc(|| Ok(if x { Coeff::One } else { Coeff::Zero })).unwrap();
    let base = Boolean::alloc(&mut Vc::<M>::new(), just(x)).unwrap();
    let moved: Bo<M> = {
        // rebuild the gadget around wire w by mapping
        struct To<M: Model>(W<M>);
        impl<M: Model> ragu_core::convert::WireMap<M> for To<M> {
            type Src = Vc<M>;
            type Dst = Vc<M>;
            fn convert_wire(&mut self, _: &W<M>) -> ragu_core::Result<W<M>> {
                Ok(self.0.clone())
            }
        }
        base.map(&mut To(w.clone())).unwrap()
    };
    let d = Demoted::new(&moved).unwrap();
    let p = d.promote(just(x));
    M::check(p.value().take() == x, "promotion keeps the supplied value");
    p.enforce_consistent(dr).unwrap();
    (w.adv * w.adv - w.adv).check_adv("soundness: consistency of a boolean forces it to be boolean");
}

pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C13", "Element::alloc", "ragu_primitives Element::alloc", alloc);
    contract!(v, "C13", "Element::alloc_square", "ragu_primitives Element::alloc_square", alloc_square);
    contract!(v, "C13", "Element constants", "ragu_primitives Element::{one,zero,constant,promote}", constants);
    contract!(v, "C13", "Element::mul", "ragu_primitives Element::mul", mul);
    contract!(v, "C13", "Element::square", "ragu_primitives Element::square", square);
    contract!(v, "C13", "Element linear ops", "ragu_primitives Element::{add,sub,negate,double,scale,add_coeff}", linear);
    contract!(v, "C13", "Element::enforce_zero", "ragu_primitives Element::enforce_zero", enforce_zero);
    contract!(v, "C13", "Element::invert", "ragu_primitives Element::invert", invert);
    contract!(v, "C13", "Element::invert_with", "ragu_primitives Element::invert_with", invert_with);
    contract!(v, "C13", "Element::div_nonzero", "ragu_primitives Element::div_nonzero", div_nonzero);
    contract!(v, "C13", "Element::is_zero (adversarial input zero)", "ragu_primitives Element::is_zero, boolean::is_zero", is_zero_0);
    contract!(v, "C13", "Element::is_zero (adversarial input nonzero)", "ragu_primitives Element::is_zero, boolean::is_zero", is_zero_1);
    contract!(v, "C13", "Element::is_equal (adversarial inputs equal)", "ragu_primitives Element::is_equal", is_equal_0);
    contract!(v, "C13", "Element::is_equal (adversarial inputs differ)", "ragu_primitives Element::is_equal", is_equal_1);
    contract!(v, "C13", "Element::{sum,fold}, multiadd", "ragu_primitives Element::{sum,fold}, multiadd", sums, bound "lengths 0..=7, all values");
    contract!(v, "C13", "multiadd length mismatch", "ragu_primitives multiadd", multiadd_mismatch, bound "four length pairs");
    contract!(v, "C13", "Element::enforce_root_of_unity soundness", "ragu_primitives Element::enforce_root_of_unity", root_of_unity, bound "k in 0..=5, all adversarial values");
    contract!(v, "C13", "Element::enforce_root_of_unity completeness", "ragu_primitives Element::enforce_root_of_unity", root_of_unity_complete);
    contract!(v, "C13", "Element::enforce_root_of_unity on arbitrary values", "ragu_primitives Element::enforce_root_of_unity", root_of_unity_concrete, bound "k = 5, all values");
    contract!(v, "C13", "Boolean::alloc", "ragu_primitives Boolean::{alloc,element,value,wire}", b_alloc);
    contract!(v, "C13", "Boolean logic", "ragu_primitives Boolean::{not,and}", b_logic);
    contract!(v, "C13", "Boolean::conditional_select", "ragu_primitives Boolean::conditional_select", b_select);
    contract!(v, "C13", "Boolean::conditional_enforce_equal", "ragu_primitives Boolean::conditional_enforce_equal", b_cond_equal);
    contract!(v, "C13", "multipack, short", "ragu_primitives multipack", multipack_short, bound "lengths 0..=3, all bit values");
    contract!(v, "C13", "multipack, around capacity", "ragu_primitives multipack", multipack_long, bound "five lengths around one and two capacities, two honest bit patterns, all adversarial wires", weight 2);
    contract!(v, "C13", "Consistent and Write", "ragu_primitives Consistent/Write for Boolean and Element", consistent);
    contract!(v, "C13", "Consistent for Boolean", "ragu_primitives Consistent for Boolean, Promotion for Boolean", consistent_boolean);
}
