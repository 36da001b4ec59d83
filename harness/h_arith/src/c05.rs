//! Contracts of evaluation domains and transforms.
use crate::{ins, pool, power, small};
use ff::PrimeField;
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::{Domain, Ring, bitreverse};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vcd::{Contract, Model, contract, explore};

fn dft<M: Model>(p: &[M], w: M) -> Vec<M> {
    let mut out = vec![];
    let mut x = M::ONE;
    for _ in 0..p.len() {
        out.push(crate::c04::at(p, x));
        x *= w;
    }
    out
}
/// One thread: the recursive branch; many threads: the iterative one.
const THREADS: [usize; 4] = [1, 2, 8, 40];
fn transforms<M: Model>(k: u32, threads: usize) {
    let d = Domain::<M>::new(k);
    let n = 1usize << k;
    M::check(d.n() == n && d.log2_n() == k, "domain: size");
    let p = ins::<M>("p", n);
    let want = dft(&p, d.omega());
    let (f, b, ib) = pool(threads, || {
        let mut f = p.clone();
        d.fft(&mut f);
        let mut b = f.clone();
        d.ifft(&mut b);
        let mut ib = p.clone();
        d.ifft(&mut ib);
        (f, b, ib)
    });
    for i in 0..n {
        M::check_eq(f[i], want[i], "fft: entry i is the evaluation at the i-th power of omega");
        M::check_eq(b[i], p[i], "ifft: undoes fft");
    }
    let back = dft(&ib, d.omega());
    for i in 0..n {
        M::check_eq(back[i], p[i], "ifft: its output evaluates to the input");
    }
}
fn fft_c<M: Model>() {
    if M::SYMBOLIC {
        for k in 0..=7 {
            for t in THREADS {
                transforms::<M>(k, t);
            }
        }
    } else {
        transforms::<M>(small::<M>("k", 3) as u32, THREADS[small::<M>("t", 2)]);
    }
}
/// A ring other than the field: pairs, with the obvious operations.
struct Pairs<M>(std::marker::PhantomData<M>);
impl<M: Model> Ring for Pairs<M> {
    type R = (M, M);
    type F = M;
    fn scale_assign(r: &mut (M, M), by: M) {
        r.0 *= by;
        r.1 *= by;
    }
    fn add_assign(r: &mut (M, M), o: &(M, M)) {
        r.0 += o.0;
        r.1 += o.1;
    }
    fn sub_assign(r: &mut (M, M), o: &(M, M)) {
        r.0 -= o.0;
        r.1 -= o.1;
    }
}
fn ring_c<M: Model>() {
    for k in if M::SYMBOLIC { 0..=4 } else { 2..=3 } {
        let d = Domain::<M>::new(k);
        let n = 1usize << k;
        let (a, b) = (ins::<M>("a", n), ins::<M>("b", n));
        let pairs: Vec<(M, M)> = a.iter().copied().zip(b.iter().copied()).collect();
        let (wa, wb) = (dft(&a, d.omega()), dft(&b, d.omega()));
        for t in THREADS {
            let mut f = pairs.clone();
            pool(t, || d.ring_fft::<Pairs<M>>(&mut f));
            let mut g = f.clone();
            pool(t, || d.ring_ifft::<Pairs<M>>(&mut g));
            for i in 0..n {
                M::check_eq(f[i].0, wa[i], "ring_fft: componentwise evaluations");
                M::check_eq(f[i].1, wb[i], "ring_fft: componentwise evaluations");
                M::check_eq(g[i].0, a[i], "ring_ifft: undoes ring_fft");
                M::check_eq(g[i].1, b[i], "ring_ifft: undoes ring_fft");
            }
        }
    }
}
fn domains<F: Model + PrimeField>() {
    for k in 0..=F::S {
        let d = Domain::<F>::new(k);
        F::check(d.n() == 1usize << k && d.log2_n() == k, "domain: size");
        let w = d.omega();
        F::check_eq(power(w, 1u128 << k), F::ONE, "domain: omega^n = 1");
        if k > 0 {
            F::check_eq(power(w, 1u128 << (k - 1)), -F::ONE, "domain: omega is primitive");
        }
        // every inverse transform of a constant vector is its constant: n_inv and omega_inv are right
        if k <= 10 {
            let mut v = vec![F::ONE; d.n()];
            d.ifft(&mut v);
            F::check(v[0] == F::ONE && v[1..].iter().all(|x| *x == F::ZERO), "domain: inverse of n");
            let mut v = vec![F::ZERO; d.n()];
            v[(d.n() > 1) as usize] = F::ONE;
            let u = v.clone();
            d.fft(&mut v);
            d.ifft(&mut v);
            F::check(v == u, "domain: inverse of omega");
        }
    }
    F::check(Domain::<F>::default().n() == 1usize << F::S, "domain: the default is the largest");
    F::check(catch_unwind(AssertUnwindSafe(|| Domain::<F>::new(F::S + 1))).is_err(), "domain: larger than the field supports is refused");
    let r = catch_unwind(AssertUnwindSafe(|| Domain::<F>::new(3).fft(&mut vec![F::ONE; 4])));
    F::check(r.is_err(), "fft: a vector of another length is refused");
}
fn domains_fp() {
    domains::<Fp>();
}
fn domains_fq() {
    let ok = Fq::ok(domains::<Fq>);
    Fp::check(ok, "domain: parameters of the second field");
}
trait Ok2 {
    fn ok(f: fn()) -> bool;
}
impl Ok2 for Fq {
    fn ok(f: fn()) -> bool {
        matches!(symf::concrete::<Fq>(1, &[], &f), symf::Run::Pass)
    }
}
fn contains_c<M: Model>() {
    for k in if M::SYMBOLIC { 0..=4 } else { 0..=6 } {
        let x = M::input("x");
        let d = Domain::<M>::new(k);
        let e = power(x, 1 << k) - M::ONE;
        if d.contains(x) {
            e.check_zero("contains: only members");
        } else {
            M::check(!e.decide_zero(), "contains: every member");
        }
    }
}
fn ell_c<M: Model>(k: u32, amounts: &[usize]) {
    let x = M::input("x");
    let d = Domain::<M>::new(k);
    let n = 1usize << k;
    let xn = power(x, n as u128);
    for amount in amounts {
        match d.ell(x, *amount) {
            None => (xn - M::ONE).check_zero("ell: none only in the domain"),
            Some(v) => {
                M::check(!(xn - M::ONE).decide_zero(), "ell: none in the domain");
                M::check(v.len() == *amount, "ell: as many weights as asked for");
                let mut w = M::ONE;
                for l in v {
                    M::check_eq(l * (x - w) * M::from(n as u64), (xn - M::ONE) * w, "ell: n (x - w^i) l_i(x) = (x^n - 1) w^i");
                    w *= d.omega();
                }
            }
        }
    }
}
fn ell_small<M: Model>() {
    ell_c::<M>(0, &[0, 1]);
}
fn ell_2<M: Model>() {
    ell_c::<M>(1, &[2]);
}
fn ell_4<M: Model>() {
    ell_c::<M>(2, &[4]);
}
fn ell_8<M: Model>() {
    ell_c::<M>(3, &[3]);
}
fn ell_native() {
    let k = small::<Fp>("k", 3) as u32;
    let n = 1usize << k;
    let d = Domain::<Fp>::new(k);
    let amount = small::<Fp>("amount", 8) % (n + 1);
    let member = Fp::flip("member");
    let x = if member { power(d.omega(), small::<Fp>("i", 7) as u128) } else { Fp::input("x") };
    match d.ell(x, amount) {
        None => Fp::check_eq(power(x, n as u128), Fp::from(1), "ell: none only in the domain"),
        Some(v) => {
            Fp::check(power(x, n as u128) != Fp::from(1), "ell: none in the domain");
            Fp::check(v.len() == amount, "ell: as many weights as asked for");
            // interpolate a polynomial whose evaluations vanish after `amount`
            let mut e = ins::<Fp>("e", n);
            for y in e[amount..].iter_mut() {
                *y = Fp::from(0);
            }
            let sum = v.iter().zip(&e).fold(Fp::from(0), |a, (l, y)| a + *l * y);
            let mut p = e.clone();
            d.ifft(&mut p);
            Fp::check_eq(sum, crate::c04::at(&p, x), "ell: the weights interpolate");
        }
    }
    Fp::check(catch_unwind(AssertUnwindSafe(|| d.ell(Fp::from(5), n + 1))).is_err(), "ell: more weights than the domain has are refused");
}
fn bits() {
    for l in 0..=32u32 {
        for t in 0..40 {
            let n = match t {
                0 => 0,
                1 => u32::MAX,
                _ => small::<Fp>("n", 32) as u32,
            };
            let n = if l == 32 { n } else { n & ((1u64 << l) - 1) as u32 };
            let r = bitreverse(n, l);
            let want = (0..l).fold(0u32, |a, i| a | ((n >> i) & 1) << (l - 1 - i));
            Fp::check(r == want, "bitreverse: bit i moves to l-1-i");
            Fp::check(bitreverse(r, l) == n, "bitreverse: an involution");
        }
    }
}
/// Short transforms on every number of threads come back at all: what takes one multiplication is given half a minute.
fn comes_back() {
    for k in 0..=2u32 {
        for t in THREADS {
            let (tx, rx) = std::sync::mpsc::channel();
            let p: Vec<Fp> = (0..1u64 << k).map(|_| Fp::input("p")).collect();
            let q = p.clone();
            std::thread::spawn(move || {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    pool(t, || {
                        let d = Domain::<Fp>::new(k);
                        let mut f = q.clone();
                        d.fft(&mut f);
                        let g = f.clone();
                        d.ifft(&mut f);
                        (g, f)
                    })
                }));
                let _ = tx.send(r.ok());
            });
            let r = rx.recv_timeout(std::time::Duration::from_secs(30)).ok().flatten();
            Fp::check(r.is_some(), &format!("fft: a transform of {} points on {t} threads ends", 1 << k));
            let Some((g, f)) = r else { return };
            Fp::check(g == dft(&p, Domain::<Fp>::new(k).omega()) && f == p, "fft: short transforms");
        }
    }
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C05", "fft and ifft", "ragu_arithmetic fft, recursive_butterfly_arithmetic, Domain::{fft,ifft}", fft_c, bound "n = 2^0..2^7 symbolically (all vectors; 1, 2, 8, 40 threads), 2^0..2^7 concretely");
    explore!(v, "C05", "short transforms end", "ragu_arithmetic Domain::{fft,ifft}", comes_back, bound "n = 1, 2, 4 on 1, 2, 8 and 40 threads, sampled vectors", weight 1);
    contract!(v, "C05", "ring_fft and ring_ifft", "ragu_arithmetic Domain::{ring_fft,ring_ifft}", ring_c, bound "n = 2^0..2^4, all vectors", weight 30);
    explore!(v, "C05", "domains", "ragu_arithmetic Domain::{default,new,halve}", domains_fp, bound "ground: every size the field supports", weight 1);
    explore!(v, "C05", "domains of the second field", "ragu_arithmetic Domain::{default,new,halve}", domains_fq, bound "ground: every size the field supports", weight 1);
    contract!(v, "C05", "Domain::contains", "ragu_arithmetic Domain::contains", contains_c, bound "n = 2^0..2^4 symbolically (all points)");
    contract!(v, "C05", "Domain::ell, n = 1", "ragu_arithmetic Domain::ell", ell_small, bound "n = 1, all points");
    contract!(v, "C05", "Domain::ell, n = 2", "ragu_arithmetic Domain::ell", ell_2, bound "n = 2, all points");
    contract!(v, "C05", "Domain::ell, n = 4", "ragu_arithmetic Domain::ell", ell_4, bound "n = 4, all points");
    contract!(v, "C05", "Domain::ell, n = 8", "ragu_arithmetic Domain::ell", ell_8, bound "n = 8, three weights, all points");
    explore!(v, "C05", "Domain::ell interpolates", "ragu_arithmetic Domain::ell", ell_native, bound "n = 2^0..2^7, sampled points including members");
    explore!(v, "C05", "bitreverse", "ragu_arithmetic bitreverse", bits, bound "every width, sampled values (all values: Kani)", weight 2);
}
