//! A small permutation and the sponge rule, written from the specification.
use crate::Model;
use ragu_arithmetic::PoseidonPermutation;

/// A small permutation with arbitrary-looking constants: the sponge code is generic over it.
pub struct Toy<M>(Vec<Vec<M>>, Vec<Vec<M>>);
impl<M: Model> Toy<M> {
    pub fn new() -> Self {
        let k = |i: u64| M::from(i * i * 7919 + 13 * i + 5);
        Toy((0..5).map(|r| (0..3).map(|i| k(10 * r + i)).collect()).collect(), (0..3).map(|r| (0..3).map(|i| k(100 + 10 * r + i)).collect()).collect())
    }
}
impl<M: Model> PoseidonPermutation<M> for Toy<M>
where
    Self: Send + Sync + 'static,
{
    const T: usize = 3;
    const RATE: usize = 2;
    const FULL_ROUNDS: usize = 2;
    const PARTIAL_ROUNDS: usize = 3;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[M]> {
        self.0.iter().map(|x| &x[..])
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[M]> {
        self.1.iter().map(|x| &x[..])
    }
}
/// The Hades permutation and the sponge rule, written from the specification.
pub struct Spec<M> {
    rc: Vec<Vec<M>>,
    mds: Vec<Vec<M>>,
    t: usize,
    rate: usize,
    full: usize,
    partial: usize,
    pub state: Vec<M>,
    pub pending: Vec<M>,
    pub out: Vec<M>,
    pub squeezing: bool,
}
impl<M: Model> Clone for Spec<M> {
    fn clone(&self) -> Self {
        Spec { rc: self.rc.clone(), mds: self.mds.clone(), state: self.state.clone(), pending: self.pending.clone(), out: self.out.clone(), ..*self }
    }
}
impl<M: Model> Spec<M> {
    pub fn new<P: PoseidonPermutation<M>>(p: &P) -> Self {
        Spec {
            rc: p.round_constants().map(|x| x.to_vec()).collect(),
            mds: p.mds_matrix().map(|x| x.to_vec()).collect(),
            t: P::T,
            rate: P::RATE,
            full: P::FULL_ROUNDS,
            partial: P::PARTIAL_ROUNDS,
            state: vec![M::ZERO; P::T],
            pending: vec![],
            out: vec![],
            squeezing: false,
        }
    }
    pub fn permute(&mut self) {
        for r in 0..self.full + self.partial {
            for (s, c) in self.state.iter_mut().zip(&self.rc[r]) {
                *s += *c;
            }
            let all = r < self.full / 2 || r >= self.full / 2 + self.partial;
            for s in self.state.iter_mut().take(if all { self.t } else { 1 }) {
                let x = *s;
                let x2 = x * x;
                *s = x2 * x2 * x;
            }
            self.state = self.mds.iter().map(|row| row.iter().zip(&self.state).fold(M::ZERO, |acc, (k, x)| acc + *x * *k)).collect();
        }
    }
    pub fn flush(&mut self) {
        for (s, p) in self.state.iter_mut().zip(&self.pending) {
            *s += *p;
        }
        self.pending.clear();
        self.permute();
    }
    pub fn absorb(&mut self, x: M) {
        if self.squeezing {
            self.squeezing = false;
            self.out.clear();
            self.pending.clear();
        }
        if self.pending.len() == self.rate {
            self.flush();
        }
        self.pending.push(x);
    }
    pub fn squeeze(&mut self) -> Option<M> {
        if !self.squeezing {
            if self.pending.is_empty() {
                return None;
            }
            self.flush();
            self.squeezing = true;
            self.out = self.state[..self.rate].to_vec();
        } else if self.out.is_empty() {
            self.permute();
            self.out = self.state[..self.rate].to_vec();
        }
        Some(self.out.remove(0))
    }
}
