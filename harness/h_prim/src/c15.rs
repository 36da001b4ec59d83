//! Contracts of the endoscalar gadget.
use crate::c13::{a, bit, elem, h, post, v};
use crate::c14::{Cv, co};
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
use pasta_curves::group::Curve;
use pasta_curves::group::prime::PrimeCurveAffine;
use pasta_curves::{EpAffine, Fp, Fq};
use ragu_arithmetic::Uendo;
use ragu_core::maybe::Maybe;
use ragu_primitives::{Boolean, Element, Endoscalar, Point, extract_endoscalar, lift_endoscalar};
use vcd::{Contract, Model, Vc, contract, explore, just};

const N: usize = Uendo::BITS as usize;
/// Bit strings: every single bit, every pair of digits at a position, boundary and pseudo-random values.
fn patterns(full: bool) -> Vec<[bool; N]> {
    let mut out = vec![[false; N], [true; N]];
    let mut r = 0x9E3779B97F4A7C15u64;
    for _ in 0..(if full { 6 } else { 1 }) {
        out.push(std::array::from_fn(|_| {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            r & 1 == 1
        }));
    }
    if full {
        for i in 0..N {
            out.push(std::array::from_fn(|j| j == i));
            out.push(std::array::from_fn(|j| j != i));
        }
        for i in 0..N / 2 {
            out.push(std::array::from_fn(|j| j / 2 == i));
        }
    }
    out
}
fn uendo(b: &[bool; N]) -> Uendo {
    let mut u = Uendo::from(0u64);
    for (i, x) in b.iter().enumerate() {
        if *x {
            u |= Uendo::from(1u64) << i;
        }
    }
    u
}
/// A bit string of the model: in symbolic runs one of the patterns, in concrete ones also random.
fn arbitrary<M: Model>(k: usize) -> [bool; N] {
    if M::SYMBOLIC {
        return patterns(false)[k % 3];
    }
    if M::flip("pattern") {
        let p = patterns(true);
        let mut i = 0usize;
        for j in 0..9 {
            i |= (M::flip("i") as usize) << j;
        }
        return p[i % p.len()];
    }
    std::array::from_fn(|_| M::flip("bit"))
}
fn alloc_one<M: Model>(k: usize) {
    let dr = &mut Vc::<M>::new();
    let b = arbitrary::<M>(k);
    let u = uendo(&b);
    let e = Endoscalar::alloc(dr, just(u)).unwrap();
    let bits: Vec<Boolean<'static, Vc<M>>> = e.bits().collect();
    M::check(bits.len() == N, "as many bits as an endoscalar has");
    for (i, x) in bits.iter().enumerate() {
        M::check(x.value().take() == b[i], "value: bit i is bit i of the integer, least significant first");
        M::check_eq(x.wire().h, bit(b[i]), "wire: bit i is bit i of the integer, least significant first");
        let w = x.wire().adv;
        (w * w - w).check_adv("soundness: each bit is boolean");
    }
}
fn alloc<M: Model>() {
    for k in 0..(if M::SYMBOLIC { 3 } else { 1 }) {
        alloc_one::<M>(k);
    }
}
/// The digit of one bit pair: (1 - 2n)(1 + (zeta-1)e).
fn digit<M: Model>(n: M, e: M) -> M {
    (M::ONE - n - n) * (M::ONE + (M::ZETA - M::ONE) * e)
}
fn lift_spec<M: Model>(b: &[M]) -> M {
    let mut acc = M::ZETA + M::ONE;
    acc = acc + acc;
    for p in b.chunks(2) {
        acc = acc + acc + digit(p[0], p[1]);
    }
    acc
}
fn lift_one<M: Model>(k: usize) {
    let dr = &mut Vc::<M>::new();
    let b = arbitrary::<M>(k);
    let e = Endoscalar::alloc(dr, just(uendo(&b))).unwrap();
    let adv: Vec<M> = e.bits().map(|x| x.wire().adv).collect();
    let hon: Vec<M> = b.iter().map(|x| bit(*x)).collect();
    let r = e.lift(dr).unwrap();
    let want = lift_spec(&hon);
    post(&r, want, lift_spec(&adv));
    M::check_eq(lift_endoscalar::<M>(uendo(&b)), want, "the native lift is the same number");
}
fn lift<M: Model>() {
    for k in 0..(if M::SYMBOLIC { 3 } else { 1 }) {
        lift_one::<M>(k);
    }
}
fn native_lift() {
    // every digit value at every position, over both fields
    fn go<M: Model + WithSmallOrderMulGroup<3>>(b: &[bool; N]) -> bool {
        let hon: Vec<M> = b.iter().map(|x| bit(*x)).collect();
        lift_endoscalar::<M>(uendo(b)) == lift_spec(&hon)
    }
    let b = arbitrary::<Fp>(0);
    Fp::check(go::<Fp>(&b) && go::<Fq>(&b), "the native lift is the digit sum");
}
fn is_square<F: Field + PrimeField>(x: F) -> bool {
    // Euler's criterion, independent of the square-root routine
    if x == F::ZERO {
        return true;
    }
    let mut y = x;
    // (p-1)/2 = TWO_ADIC odd part times 2^(S-1): use the repr of -1 halved
    let half = (-F::ONE) * F::TWO_INV;
    let r = half.to_repr();
    let bytes = r.as_ref();
    let mut acc = F::ONE;
    for byte in bytes {
        for k in 0..8 {
            if byte >> k & 1 == 1 {
                acc *= y;
            }
            y = y.square();
        }
    }
    acc == F::ONE
}
fn extract_spec<F: PrimeField>(x: F) -> [bool; N] {
    std::array::from_fn(|i| is_square(x + F::from(i as u64)))
}
fn extract_native() {
    let x = Fp::input("x");
    let want = extract_spec(x);
    Fp::check(extract_endoscalar(x) == uendo(&want), "bit i tells whether the element plus i is a square");
    let y = Fq::from(u64::from_le_bytes(x.to_repr()[..8].try_into().unwrap()));
    Fp::check(extract_endoscalar(y) == uendo(&extract_spec(y)), "bit i tells whether the element plus i is a square");
}
/// The honest element is a fixed number; the adversary is arbitrary.
fn extract<M: Model<P = Fp>>() {
    let cases: Vec<Fp> = if M::SYMBOLIC { vec![Fp::from(7), -Fp::from(5)] } else { vec![Fp::ZERO] };
    for c in cases {
        let dr = &mut Vc::<M>::new();
        let x = if M::SYMBOLIC { M::lit(c) } else { M::input("x") };
        let el = Element::alloc(dr, just(x)).unwrap();
        let ax = a(&el);
        let e = Endoscalar::extract(dr, el).unwrap();
        let want = extract_spec(x.value().unwrap());
        let bits: Vec<Boolean<'static, Vc<M>>> = e.bits().collect();
        for (i, b) in bits.iter().enumerate() {
            M::check(b.value().take() == want[i], "value: bit i tells whether the element plus i is a square");
            M::check_eq(b.wire().h, bit(want[i]), "wire: bit i tells whether the element plus i is a square");
            let w = b.wire().adv;
            (w * w - w).check_adv("soundness: each bit is boolean");
            let _ = (ax, i);
        }
        M::check(bits.len() == N, "as many bits as an endoscalar has");
    }
}
/// The adversary's bit i is forced: a square root of (x+i)*(b ? 1 : g) is exhibited.
fn extract_sound<M: Model<P = Fp>>() {
    let dr = &mut Vc::<M>::new();
    let x = Fp::from(7);
    let el = Element::alloc(dr, just(M::lit(x))).unwrap();
    let ax = a(&el);
    let before = symf_vars::<M>();
    let e = Endoscalar::extract(dr, el).unwrap();
    let g = M::MULTIPLICATIVE_GENERATOR;
    let label = "soundness: bit i is forced to tell whether the element plus i is a square";
    for (i, b) in e.bits().enumerate() {
        // if b = 1 then x+i is a square; if b = 0 then g(x+i) is: some wire s has this square
        let w = b.wire().adv;
        if !M::SYMBOLIC {
            let t = (ax + M::from(i as u64)).value().unwrap();
            M::check(t == Fp::ZERO || w == bit(is_square(t)), label);
            continue;
        }
        let t = (ax + M::from(i as u64)) * (w + (M::ONE - w) * g);
        // nearest wires first
        let at = w.first_var().unwrap_or(before) as i64;
        let mut cand: Vec<u32> = (before..symf_vars::<M>()).collect();
        cand.sort_by_key(|s| (*s as i64 - at).abs());
        if cand.into_iter().take(40).any(|s| M::var_squared_is(s, t)) {
            M::check(true, label);
        } else {
            (ax - M::lit(x)).constrain_adv();
            (w - bit::<M>(is_square(x + Fp::from(i as u64)))).check_adv(label);
            return;
        }
    }
}
fn symf_vars<M: Model<P = Fp>>() -> u32 {
    <Fp as symf::Base>::with(|x| x.names.len() as u32)
}
fn group_scale_native() {
    let b = arbitrary::<Fp>(0);
    let p = <Fp as Cv>::point("P");
    let dr = &mut Vc::<Fp>::new();
    let pt = Point::alloc(dr, just(p)).unwrap();
    let e = Endoscalar::alloc(dr, just(uendo(&b))).unwrap();
    let r = e.group_scale(dr, &pt).unwrap();
    let c = co(dr, &r);
    // multiplication by the lifted scalar
    let hon: Vec<Fq> = b.iter().map(|x| if *x { Fq::ONE } else { Fq::ZERO }).collect();
    let mut k = (Fq::ZETA + Fq::ONE).double();
    for d in hon.chunks(2) {
        k = k.double() + (Fq::ONE - d[0].double()) * (Fq::ONE + (Fq::ZETA - Fq::ONE) * d[1]);
    }
    Fp::check(lift_endoscalar::<Fq>(uendo(&b)) == k, "the native lift is the digit sum");
    let want = (p.to_curve() * k).to_affine();
    let w: Coordinates<EpAffine> = Option::from(want.coordinates()).unwrap();
    Fp::check(c.hx == *w.x() && c.hy == *w.y(), "group scaling is multiplication by the lifted scalar");
    Fp::check((p.to_curve() * Fq::ZETA).to_affine() == p.to_curve().endo().to_affine(), "the curve endomorphism is multiplication by zeta");
    let _ = EpAffine::generator();
}
/// group_scale emits exactly what composing the contracts of the point operations prescribes.
fn group_scale<M: Cv<P = Fp>>() {
    if !M::SYMBOLIC {
        return;
    }
    let b = patterns(false)[2];
    let go = |spec: bool| {
        let dr = &mut Vc::<M>::new();
        let g: M::C = M::C::generator();
        let p = Point::alloc(dr, just(g)).unwrap();
        let e = Endoscalar::alloc(dr, just(uendo(&b))).unwrap();
        let start = M::adv_len();
        let vars = symf_vars::<M>();
        let r = if spec {
            let mut acc = p.endo(dr).add_incomplete(dr, &p, None).unwrap().double(dr).unwrap();
            let bits: Vec<_> = e.bits().collect();
            for d in bits.chunks(2) {
                let q = p.conditional_negate(dr, &d[0]).unwrap().conditional_endo(dr, &d[1]).unwrap();
                acc = acc.double_and_add_incomplete(dr, &q).unwrap();
            }
            acc
        } else {
            e.group_scale(dr, &p).unwrap()
        };
        let c = co(dr, &r);
        (M::adv_trace(start, vars, &[c.ax, c.ay]), c.hx, c.hy)
    };
    // both runs number their wires alike, relative to the start of the run
    let (s, hx, hy) = go(true);
    let (r, gx, gy) = go(false);
    M::check_eq(hx, gx, "the honest result is that of the composed operations");
    M::check_eq(hy, gy, "the honest result is that of the composed operations");
    if s == r {
        M::check(true, "soundness: the constraints are those of the composed point operations");
    } else {
        M::undecided("soundness: the constraints are those of the composed point operations", "the emitted constraints differ syntactically from the composition");
    }
}

/// For every assignment satisfying the constraints: bits are boolean, the lift is the digit sum of the bits.
fn alloc_sound<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let e = Endoscalar::alloc(dr, just(uendo(&patterns(false)[2]))).unwrap();
    let mut n = 0;
    for x in e.bits() {
        let w = x.wire().adv;
        (w * w - w).check_adv("soundness: each bit is boolean");
        n += 1;
    }
    M::check(n == N, "as many bits as an endoscalar has");
}
fn lift_sound<M: Model>() {
    let dr = &mut Vc::<M>::new();
    let e = Endoscalar::alloc(dr, just(uendo(&patterns(false)[2]))).unwrap();
    let adv: Vec<M> = e.bits().map(|x| x.wire().adv).collect();
    let r = e.lift(dr).unwrap();
    M::check_adv_eq(a(&r), lift_spec(&adv), "soundness: the lift is the digit sum of the bits");
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C15", "Endoscalar::alloc and bits", "ragu_primitives Endoscalar::{alloc,bits}", alloc, bound "three honest bit patterns symbolically, patterns and random strings concretely; all adversarial wires");
    contract!(v, "C15", "Endoscalar::lift, honest and adversarial", "ragu_primitives Endoscalar::lift, lift_endoscalar", lift, bound "three honest bit patterns symbolically, patterns and random strings concretely; all adversarial wires");
    contract!(v, "C15", "Endoscalar::extract", "ragu_primitives Endoscalar::extract", extract, bound "honest elements sampled; all adversarial wires", weight 10);
    contract!(v, "C15", "Endoscalar::alloc soundness", "ragu_primitives Endoscalar::{alloc,bits}", alloc_sound, weight 1);
    contract!(v, "C15", "Endoscalar::lift soundness", "ragu_primitives Endoscalar::lift", lift_sound, weight 10);
    contract!(v, "C15", "Endoscalar::extract soundness", "ragu_primitives Endoscalar::extract", extract_sound, weight 1);
    contract!(v, "C15", "Endoscalar::group_scale constraints", "ragu_primitives Endoscalar::group_scale", group_scale, weight 1);
    explore!(v, "C15", "native lift", "ragu_primitives lift_endoscalar", native_lift, bound "every digit at every position, random strings", weight 400);
    explore!(v, "C15", "native extraction", "ragu_primitives extract_endoscalar", extract_native, bound "sampled elements", weight 20);
    explore!(v, "C15", "group scaling is scalar multiplication", "ragu_primitives Endoscalar::group_scale", group_scale_native, bound "sampled bit strings and points", weight 30);
    let _ = (elem::<Fp>, h::<Fp>, crate::c13::v::<Fp>);
}
#[allow(unused)]
fn unused<M: Model>(e: &crate::c13::El<M>) -> M {
    v(e)
}
