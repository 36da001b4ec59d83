//! Contracts of the curve-point gadget. The group law is written out as chord and tangent here.
use crate::c13::{a, bit, boolean, h, v};
use ff::Field;
use pasta_curves::arithmetic::{Coordinates, CurveAffine};
use pasta_curves::group::prime::PrimeCurveAffine;
use ragu_core::maybe::Maybe;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::{Element, GadgetExt, Point};
use symf::{Base, Sym, SymAff};
use vcd::{Contract, Model, Vc, contract, just};
use ragu_core::gadgets::Gadget;

pub trait Cv: Model {
    type C: CurveAffine<Base = Self>;
    /// An arbitrary finite point of the curve.
    fn point(name: &str) -> Self::C;
    /// The inverse of a value the adversary is assumed to have made nonzero.
    fn adv_inverse(self) -> Self;
    fn honest_inverse(self) -> Self {
        Option::<Self>::from(self.invert()).unwrap()
    }
}
impl<P: Base> Cv for Sym<P> {
    type C = SymAff<P>;
    fn point(name: &str) -> SymAff<P> {
        let (x, y) = (Self::input(&format!("{name}.x")), Self::input(&format!("{name}.y")));
        (y * y - x * x * x - Sym::from(5)).assume_zero();
        // the curve has odd prime order: no point of order two
        y.assume_nonzero();
        SymAff::raw(x, y)
    }
    fn adv_inverse(self) -> Self {
        let i = Self::input("adv:inverse");
        (self * i - Self::ONE).constrain_adv();
        i
    }
}
impl Cv for pasta_curves::Fp {
    type C = pasta_curves::EpAffine;
    fn point(name: &str) -> Self::C {
        let (x, y) = (Self::input(&format!("{name}.x")), Self::input(&format!("{name}.y")));
        if let Some(p) = Option::<Self::C>::from(<Self::C as CurveAffine>::from_xy(x, y)).filter(|p: &Self::C| !bool::from(p.is_identity())) {
            return p;
        }
        let b = ff::PrimeField::to_repr(&x);
        let mut s = pasta_curves::Fq::from(u64::from_le_bytes(b.as_ref()[..8].try_into().unwrap()) | 1);
        if b.as_ref()[9] & 1 == 1 {
            s = -s;
        }
        (Self::C::generator() * s).into()
    }
    fn adv_inverse(self) -> Self {
        match Option::<Self>::from(self.invert()) {
            Some(x) => x,
            None => std::panic::panic_any(symf::Skip),
        }
    }
}

pub type Pt<M> = Point<'static, Vc<M>, <M as Cv>::C>;
pub fn xy<M: Cv>(dr: &mut Vc<M>, p: &Pt<M>) -> (Element<'static, Vc<M>>, Element<'static, Vc<M>>) {
    let mut b: Vec<Element<'static, Vc<M>>> = vec![];
    p.write(dr, &mut b).unwrap();
    assert_eq!(b.len(), 2);
    (b[0].clone(), b[1].clone())
}
pub struct Co<M> {
    pub hx: M,
    pub hy: M,
    pub ax: M,
    pub ay: M,
}
pub fn co<M: Cv>(dr: &mut Vc<M>, p: &Pt<M>) -> Co<M> {
    let (x, y) = xy(dr, p);
    M::check_eq(v(&x), h(&x), "wire: value and wire agree");
    M::check_eq(v(&y), h(&y), "wire: value and wire agree");
    Co { hx: h(&x), hy: h(&y), ax: a(&x), ay: a(&y) }
}
fn point<M: Cv>(dr: &mut Vc<M>, name: &str) -> (Pt<M>, Co<M>) {
    let p = Point::alloc(dr, just(M::point(name))).unwrap();
    let c = co(dr, &p);
    (p, c)
}
fn post<M: Cv>(dr: &mut Vc<M>, p: &Pt<M>, hon: (M, M), adv: (M, M)) {
    let c = co(dr, p);
    M::check_eq(c.hx, hon.0, "value: x is the group law's");
    M::check_eq(c.hy, hon.1, "value: y is the group law's");
    M::check_adv_eq(c.ax, adv.0, "soundness: x is forced to the group law's");
    M::check_adv_eq(c.ay, adv.1, "soundness: y is forced to the group law's");
}
fn on_curve<M: Cv>(dr: &mut Vc<M>, p: &Pt<M>) {
    let c = co(dr, p);
    (c.ay * c.ay - c.ax * c.ax * c.ax - M::from(5)).check_adv("soundness: the point is forced onto the curve");
    (c.hy * c.hy - c.hx * c.hx * c.hx - M::from(5)).check_zero("value: the point is on the curve");
}
fn alloc<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let p = M::point("P");
    let g = Point::alloc(dr, just(p)).unwrap();
    let c: Coordinates<M::C> = Option::from(p.coordinates()).unwrap();
    let k = co(dr, &g);
    M::check_eq(k.hx, *c.x(), "value: the coordinates are the witness point's");
    M::check_eq(k.hy, *c.y(), "value: the coordinates are the witness point's");
    on_curve(dr, &g);
    let w = g.value().take();
    M::check(w == p, "value(): returns the point");
    let dr = &mut Vc::<M>::new();
    M::check(Point::<'static, Vc<M>, M::C>::alloc(dr, just(M::C::identity())).is_err(), "the point at infinity is refused");
    M::check(Point::<'static, Vc<M>, M::C>::constant(dr, M::C::identity()).is_err(), "the point at infinity is refused");
    let k = Point::constant(dr, p).unwrap();
    post(dr, &k, (*c.x(), *c.y()), (*c.x(), *c.y()));
}
fn unary<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    let n = p.negate(dr);
    post(dr, &n, (c.hx, -c.hy), (c.ax, -c.ay));
    let e = p.endo(dr);
    post(dr, &e, (c.hx * M::ZETA, c.hy), (c.ax * M::ZETA, c.ay));
    M::check(M::ZETA * M::ZETA * M::ZETA == M::ONE && M::ZETA != M::ONE, "zeta is a primitive cube root of one");
}
fn conditional<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    let b = boolean(dr, "c");
    let t = b.value().take();
    let ab = b.wire().adv;
    let n = p.conditional_negate(dr, &b).unwrap();
    post(dr, &n, (c.hx, if t { -c.hy } else { c.hy }), (c.ax, c.ay - ab * (c.ay + c.ay)));
    let e = p.conditional_endo(dr, &b).unwrap();
    post(dr, &e, (if t { c.hx * M::ZETA } else { c.hx }, c.hy), (c.ax + ab * c.ax * (M::ZETA - M::ONE), c.ay));
    let _ = bit::<M>(t);
}
/// The chord (or the tangent, given its slope) through two points.
fn chord<M: Model>(l: M, x1: M, y1: M, x2: M) -> (M, M) {
    let x3 = l * l - x1 - x2;
    (x3, l * (x1 - x3) - y1)
}
fn double<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    let d = p.double(dr).unwrap();
    let three = M::from(3);
    let hl = three * c.hx * c.hx * (c.hy + c.hy).honest_inverse();
    let al = three * c.ax * c.ax * (c.ay + c.ay).adv_inverse();
    post(dr, &d, chord(hl, c.hx, c.hy, c.hx), chord(al, c.ax, c.ay, c.ax));
}
fn double_no_torsion<M: Cv>() {
    // y = 0 is impossible for the adversary as well: no satisfying assignment exists
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    if M::SYMBOLIC {
        c.ay.constrain_adv();
        p.double(dr).unwrap();
        M::ONE.check_adv("soundness: doubling a point of order two is impossible");
    }
}
fn add<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    let (q, d) = point(dr, "Q");
    if (d.hx - c.hx).decide_zero() {
        M::check(p.add_incomplete(dr, &q, None).is_err(), "points with equal x are refused");
        return;
    }
    let s = p.add_incomplete(dr, &q, None).unwrap();
    let hl = (d.hy - c.hy) * (d.hx - c.hx).honest_inverse();
    let al = (d.ay - c.ay) * (d.ax - c.ax).adv_inverse();
    post(dr, &s, chord(hl, c.hx, c.hy, d.hx), chord(al, c.ax, c.ay, d.ax));
}
fn add_nonzero<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    let (q, d) = point(dr, "Q");
    (d.hx - c.hx).assume_nonzero();
    let mut nz = Element::alloc(dr, just(M::input("nz"))).unwrap();
    let (hn, an) = (h(&nz), a(&nz));
    let s = p.add_incomplete(dr, &q, Some(&mut nz)).unwrap();
    M::check_eq(h(&nz), hn * (d.hx - c.hx), "the accumulator is multiplied by the difference of x");
    M::check_eq(v(&nz), hn * (d.hx - c.hx), "the accumulator is multiplied by the difference of x");
    // a nonzero accumulator afterwards excludes the exceptional case
    let inv = a(&nz).adv_inverse();
    let al = (d.ay - c.ay) * an * inv;
    let hl = (d.hy - c.hy) * (d.hx - c.hx).honest_inverse();
    post(dr, &s, chord(hl, c.hx, c.hy, d.hx), chord(al, c.ax, c.ay, d.ax));
}
fn add_opposite<M: Cv>() {
    // P + (-P): no satisfying assignment
    if !M::SYMBOLIC {
        return;
    }
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    let (q, d) = point(dr, "Q");
    (d.hx - c.hx).assume_nonzero();
    (d.ax - c.ax).constrain_adv();
    (d.ay + c.ay).constrain_adv();
    c.ay.constrain_adv_nonzero();
    p.add_incomplete(dr, &q, None).unwrap();
    M::ONE.check_adv("soundness: adding opposite points is impossible");
}
fn double_and_add<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let (p, c) = point(dr, "P");
    let (q, d) = point(dr, "Q");
    if (d.hx - c.hx).decide_zero() {
        M::check(p.double_and_add_incomplete(dr, &q).is_err(), "points with equal x are refused");
        return;
    }
    // R = P + Q, then P + R, each by the chord rule
    let spec = |x1: M, y1: M, x2: M, y2: M, inv: &dyn Fn(M) -> M, neq: &dyn Fn(M) -> bool| {
        let (x3, y3) = chord((y2 - y1) * inv(x2 - x1), x1, y1, x2);
        if !neq(x3 - x1) {
            return None;
        }
        Some(chord((y3 - y1) * inv(x3 - x1), x1, y1, x3))
    };
    let hon = spec(c.hx, c.hy, d.hx, d.hy, &|x| x.honest_inverse(), &|x| !x.decide_zero());
    let Some(hon) = hon else {
        M::check(p.double_and_add_incomplete(dr, &q).is_err(), "an exceptional intermediate sum is refused");
        return;
    };
    let s = p.double_and_add_incomplete(dr, &q).unwrap();
    let adv = spec(c.ax, c.ay, d.ax, d.ay, &|x| x.adv_inverse(), &|_| true).unwrap();
    post(dr, &s, hon, adv);
}
fn consistent<M: Cv>() {
    let dr = &mut Vc::<M>::new();
    let (p, _) = point(dr, "P");
    // the same gadget with unconstrained wires
    struct Free<M: Model>(std::marker::PhantomData<M>);
    impl<M: Model> ragu_core::convert::WireMap<M> for Free<M> {
        type Src = Vc<M>;
        type Dst = Vc<M>;
        fn convert_wire(&mut self, w: &vcd::W<M>) -> ragu_core::Result<vcd::W<M>> {
            Ok(vcd::W { h: w.h, adv: M::adversary("free", w.h) })
        }
    }
    let f = p.map(&mut Free(std::marker::PhantomData)).unwrap();
    f.enforce_consistent(dr).unwrap();
    on_curve(dr, &f);
}

pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C14", "Point::alloc and constant", "ragu_primitives Point::{alloc,constant,value}", alloc);
    contract!(v, "C14", "Point::negate and endo", "ragu_primitives Point::{negate,endo}", unary);
    contract!(v, "C14", "Point::conditional_negate and conditional_endo", "ragu_primitives Point::{conditional_negate,conditional_endo}", conditional);
    contract!(v, "C14", "Point::double", "ragu_primitives Point::double", double);
    contract!(v, "C14", "Point::double, order two", "ragu_primitives Point::double", double_no_torsion);
    contract!(v, "C14", "Point::add_incomplete", "ragu_primitives Point::add_incomplete", add);
    contract!(v, "C14", "Point::add_incomplete with nonzero accumulator", "ragu_primitives Point::add_incomplete", add_nonzero);
    contract!(v, "C14", "Point::add_incomplete, opposite points", "ragu_primitives Point::add_incomplete", add_opposite);
    contract!(v, "C14", "Point::double_and_add_incomplete", "ragu_primitives Point::double_and_add_incomplete", double_and_add);
    contract!(v, "C14", "Consistent for Point", "ragu_primitives Consistent for Point", consistent);
}
