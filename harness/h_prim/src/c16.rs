//! Contracts of the Poseidon sponge.
use crate::c13::{El, a, h, post, v};
use ff::PrimeField;
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::{Cycle, PoseidonPermutation};
use ragu_core::gadgets::Gadget;
use ragu_pasta::{Pasta, PoseidonFp};
use ragu_primitives::poseidon::{SaveError, Sponge, SpongeState};
use ragu_primitives::vec::CollectFixed;
use ragu_primitives::{Element, GadgetExt};
use std::sync::OnceLock;
use vcd::sponge::{Spec, Toy};
use vcd::{Contract, Model, Vc, contract, explore, just};

/// The real parameters, lifted to the model field.
pub struct Lift<M>(Vec<Vec<M>>, Vec<Vec<M>>);
impl<M: Model<P = Fp>> Lift<M> {
    pub fn new() -> Self {
        let up = |r: &[Fp]| r.iter().map(|x| M::lit(*x)).collect();
        Lift(PoseidonFp.round_constants().map(up).collect(), PoseidonFp.mds_matrix().map(up).collect())
    }
}
impl<M: Model<P = Fp>> PoseidonPermutation<M> for Lift<M> {
    const T: usize = <PoseidonFp as PoseidonPermutation<Fp>>::T;
    const RATE: usize = <PoseidonFp as PoseidonPermutation<Fp>>::RATE;
    const FULL_ROUNDS: usize = <PoseidonFp as PoseidonPermutation<Fp>>::FULL_ROUNDS;
    const PARTIAL_ROUNDS: usize = <PoseidonFp as PoseidonPermutation<Fp>>::PARTIAL_ROUNDS;
    const ALPHA: isize = <PoseidonFp as PoseidonPermutation<Fp>>::ALPHA;
    fn round_constants(&self) -> impl Iterator<Item = &[M]> {
        self.0.iter().map(|x| &x[..])
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[M]> {
        self.1.iter().map(|x| &x[..])
    }
}

fn state<M: Model, P: PoseidonPermutation<M>>(dr: &mut Vc<M>) -> (Vec<El<M>>, SpongeState<'static, Vc<M>, P>) {
    let e: Vec<El<M>> = (0..P::T).map(|i| Element::alloc(dr, just(M::input(&format!("s{i}")))).unwrap()).collect();
    (e.clone(), SpongeState::from_elements(e.into_iter().collect_fixed().unwrap()))
}
fn permutation<M: Model, P: PoseidonPermutation<M>>(params: &'static P) {
    let dr = &mut Vc::<M>::new();
    // an arbitrary state, all its outputs used up, forces exactly one permutation
    let (e, st) = state::<M, P>(dr);
    let mut sp = Sponge::resume(st, params);
    let (mut hs, mut ad) = (Spec::new(params), Spec::new(params));
    hs.state = e.iter().map(h).collect();
    ad.state = e.iter().map(a).collect();
    for k in 0..P::RATE {
        let o = sp.squeeze(dr).unwrap();
        post(&o, hs.state[k], ad.state[k]);
    }
    hs.permute();
    ad.permute();
    for k in 0..P::RATE {
        let o = sp.squeeze(dr).unwrap();
        post(&o, hs.state[k], ad.state[k]);
    }
}
fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
fn real_permutation<M: Model<P = Fp>>() {
    permutation::<M, _>(leak(Lift::<M>::new()));
}
fn real_whole_state<M: Model<P = Fp>>() {
    // save_state returns the complete state, capacity included
    let dr = &mut Vc::<M>::new();
    let params = leak(Lift::<M>::new());
    let mut sp = Sponge::<'static, Vc<M>, Lift<M>>::new(dr, params);
    let (mut hs, mut ad) = (Spec::new(params), Spec::new(params));
    for i in 0..2 {
        let x = Element::alloc(dr, just(M::input(&format!("x{i}")))).unwrap();
        hs.absorb(h(&x));
        ad.absorb(a(&x));
        sp.absorb(dr, &x).unwrap();
    }
    hs.flush();
    ad.flush();
    let st = sp.save_state(dr).unwrap();
    let mut buf: Vec<El<M>> = vec![];
    st.write(dr, &mut buf).unwrap();
    M::check(buf.len() == Lift::<M>::T, "a state serializes to T elements");
    for (i, e) in buf.iter().enumerate() {
        post(e, hs.state[i], ad.state[i]);
    }
    for (i, e) in st.clone().into_elements().iter().enumerate() {
        post(e, hs.state[i], ad.state[i]);
    }
    M::check(st.num_wires().unwrap() == Lift::<M>::T, "a state has T wires");
}

/// Every operation sequence up to `n` from a fresh sponge, and from an arbitrary resumed state.
fn sequences<M: Model>(n: usize, resumed: bool)
where
    Toy<M>: PoseidonPermutation<M>,
{
    let params = leak(Toy::<M>::new());
    for len in 0..=n {
        for code in 0..(1u32 << len) {
            let dr = &mut Vc::<M>::new();
            let (mut hs, mut ad) = (Spec::new(params), Spec::new(params));
            let mut sp = if resumed {
                let (e, st) = state::<M, Toy<M>>(dr);
                for (s, f) in [(&mut hs, h as fn(&El<M>) -> M), (&mut ad, a as fn(&El<M>) -> M)] {
                    s.state = e.iter().map(f).collect();
                    s.squeezing = true;
                    s.out = s.state[..2].to_vec();
                }
                Sponge::resume(st, params)
            } else {
                Sponge::<'static, Vc<M>, Toy<M>>::new(dr, params)
            };
            for i in 0..len {
                if code >> i & 1 == 0 {
                    let x = Element::alloc(dr, just(M::input(&format!("x{i}")))).unwrap();
                    hs.absorb(h(&x));
                    ad.absorb(a(&x));
                    sp.absorb(dr, &x).unwrap();
                } else {
                    match hs.squeeze() {
                        None => M::check(sp.squeeze(dr).is_err(), "squeezing a sponge that absorbed nothing is refused"),
                        Some(x) => {
                            let y = ad.squeeze().unwrap();
                            let o = sp.squeeze(dr).unwrap();
                            post(&o, x, y);
                        }
                    }
                }
            }
            // saving: refused while squeezing or with nothing absorbed, else resuming continues
            let r = sp.clone().save_state(dr);
            if hs.squeezing {
                M::check(matches!(r, Err(SaveError::AlreadyInSqueezeMode)), "saving with outputs pending is refused");
                continue;
            }
            if hs.pending.is_empty() {
                M::check(matches!(r, Err(SaveError::NothingAbsorbed)), "saving with nothing absorbed is refused");
                continue;
            }
            let mut re = Sponge::resume(r.ok().unwrap(), params);
            for k in 0..3 {
                let o = re.squeeze(dr).unwrap();
                let (x, y) = (hs.squeeze().unwrap(), ad.squeeze().unwrap());
                post(&o, x, y);
                if k == 0 {
                    let c = sp.squeeze(dr).unwrap();
                    M::check_eq(v(&c), x, "continuing equals saving and resuming");
                }
            }
            let x = Element::alloc(dr, just(M::input("t"))).unwrap();
            re.absorb(dr, &x).unwrap();
            hs.absorb(h(&x));
            ad.absorb(a(&x));
            let o = re.squeeze(dr).unwrap();
            post(&o, hs.squeeze().unwrap(), ad.squeeze().unwrap());
        }
    }
}
fn fresh_sequences<M: Model>()
where
    Toy<M>: PoseidonPermutation<M>,
{
    sequences::<M>(6, false)
}
fn resumed_sequences<M: Model>()
where
    Toy<M>: PoseidonPermutation<M>,
{
    sequences::<M>(5, true)
}

/// The Grain LFSR of the Hades reference implementation.
struct Grain(std::collections::VecDeque<bool>);
impl Grain {
    fn new(n: u32, t: u32, rf: u32, rp: u32) -> Self {
        let mut s = std::collections::VecDeque::new();
        for (v, l) in [(1, 2), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)] {
            for i in (0..l).rev() {
                s.push_back(v >> i & 1 == 1);
            }
        }
        let mut g = Grain(s);
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let b = [62, 51, 38, 23, 13, 0].iter().fold(false, |x, i| x ^ self.0[*i]);
        self.0.pop_front();
        self.0.push_back(b);
        b
    }
    fn bit(&mut self) -> bool {
        while !self.step() {
            self.step();
        }
        self.step()
    }
    /// n bits, most significant first, as a little-endian byte array
    fn bits(&mut self, n: usize) -> [u8; 32] {
        let mut r = [0u8; 32];
        for i in (0..n).rev() {
            if self.bit() {
                r[i / 8] |= 1 << (i % 8);
            }
        }
        r
    }
}
fn published<F: PrimeField<Repr = [u8; 32]>, P: PoseidonPermutation<F>>(p: &P) -> bool {
    if (P::T, P::RATE, P::FULL_ROUNDS, P::PARTIAL_ROUNDS, P::ALPHA) != (5, 4, 8, 56, 5) {
        return false;
    }
    let mut g = Grain::new(255, 5, 8, 56);
    let rcs: Vec<Vec<F>> = p.round_constants().map(|x| x.to_vec()).collect();
    let mut ok = rcs.len() == 64 && rcs.iter().all(|r| r.len() == 5);
    for r in 0..64 {
        for i in 0..5 {
            let c = loop {
                let c: Option<F> = F::from_repr(g.bits(255)).into();
                if let Some(c) = c {
                    break c;
                }
            };
            ok &= rcs.get(r).and_then(|r| r.get(i)) == Some(&c);
        }
    }
    let two128 = F::from_u128(1 << 127).double();
    let xs: Vec<F> = (0..10)
        .map(|_| {
            let b = g.bits(255);
            let lo = u128::from_le_bytes(b[..16].try_into().unwrap());
            let hi = u128::from_le_bytes(b[16..].try_into().unwrap());
            F::from_u128(hi) * two128 + F::from_u128(lo)
        })
        .collect();
    let m: Vec<Vec<F>> = p.mds_matrix().map(|x| x.to_vec()).collect();
    ok &= m.len() == 5 && m.iter().all(|r| r.len() == 5);
    for i in 0..5 {
        for j in 0..5 {
            let e: Option<F> = (xs[i] + xs[5 + j]).invert().into();
            ok &= m.get(i).and_then(|r| r.get(j)) == Some(&e.unwrap());
        }
    }
    ok
}
fn constants() {
    static R: OnceLock<(bool, bool)> = OnceLock::new();
    let (p, q) = *R.get_or_init(|| (published::<Fp, _>(&PoseidonFp), published::<Fq, _>(&ragu_pasta::PoseidonFq)));
    Fp::check(p, "the Fp parameters are those of the published generator (T=5, 8/56 rounds, x^5)");
    Fp::check(q, "the Fq parameters are those of the published generator (T=5, 8/56 rounds, x^5)");
}
#[allow(dead_code)]
fn cycle() -> &'static <Pasta as Cycle>::Params {
    unreachable!()
}

pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C16", "permutation with the real parameters", "ragu_primitives poseidon::{Permutation,sbox,mds,add_round_constants}, Sponge::{resume,squeeze}", real_permutation, atoms 1, weight 10);
    contract!(v, "C16", "absorb, save and serialize with the real parameters", "ragu_primitives Sponge::{new,absorb,save_state}, SpongeState", real_whole_state, atoms 1, weight 10);
    contract!(v, "C16", "operation sequences from a fresh sponge", "ragu_primitives Sponge::{new,absorb,squeeze,save_state,resume}", fresh_sequences, bound "all absorb/squeeze sequences of length <= 6 with T=3, RATE=2, all values", atoms 1, weight 5);
    contract!(v, "C16", "operation sequences from an arbitrary resumed state", "ragu_primitives Sponge::{absorb,squeeze,save_state,resume}", resumed_sequences, bound "all absorb/squeeze sequences of length <= 5 from any state with T=3, RATE=2, all values", atoms 1, weight 5);
    let mut c = vec![];
    explore!(c, "C16", "published constants", "ragu_pasta PoseidonFp, PoseidonFq", constants, bound "ground: every constant is compared", weight 1);
    v.append(&mut c);
}
