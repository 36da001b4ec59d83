//! The verification-condition driver: runs real gadget code and turns what it emits into obligations.
//!
//! A wire carries two values: the one the honest prover assigns, and an arbitrary one assigned by an
//! adversary. A gate a*b=c, c*d=0 and a linear constraint each yield
//!   completeness  an obligation on the honest values, and
//!   soundness     a hypothesis on the adversary's values,
//! from which the contracts' postconditions on the adversary's values must follow.
use ragu_arithmetic::Coeff;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverTypes, LinearExpression};
use ragu_core::maybe::{Always, Maybe};
pub use symf::Model;
use std::marker::PhantomData;

pub mod run;
pub mod sponge;
pub use run::{Contract, main};

#[derive(Clone, Debug)]
pub struct W<M> {
    pub h: M,
    pub adv: M,
}

#[derive(Default)]
pub struct Vc<M: Model> {
    pub gates: usize,
    pub allocs: usize,
    pub constraints: usize,
    /// obligations are only raised for what the function under contract emits
    pub quiet: bool,
    _m: PhantomData<M>,
}

pub fn coeff<M: Model>(c: &Coeff<M>) -> M {
    match c {
        Coeff::Zero => M::ZERO,
        Coeff::One => M::ONE,
        Coeff::Two => M::ONE + M::ONE,
        Coeff::NegativeOne => -M::ONE,
        Coeff::Arbitrary(x) => *x,
        Coeff::NegativeArbitrary(x) => -*x,
    }
}

/// Our own reading of a linear expression: each term is scaled by the product of the gains before it.
pub struct Lin<M> {
    pub h: M,
    pub adv: M,
    g: M,
}
impl<M: Model> Default for Lin<M> {
    fn default() -> Self {
        Lin { h: M::ZERO, adv: M::ZERO, g: M::ONE }
    }
}
impl<M: Model> LinearExpression<W<M>, M> for Lin<M> {
    fn add_term(mut self, w: &W<M>, c: Coeff<M>) -> Self {
        let k = coeff(&c) * self.g;
        self.h += w.h * k;
        self.adv += w.adv * k;
        self
    }
    fn gain(mut self, c: Coeff<M>) -> Self {
        self.g *= coeff(&c);
        self
    }
}

impl<M: Model> DriverTypes for Vc<M> {
    type ImplField = M;
    type ImplWire = W<M>;
    type MaybeKind = Always<()>;
    type LCadd = Lin<M>;
    type LCenforce = Lin<M>;
    fn gate(
        &mut self,
        values: impl Fn() -> Result<(Coeff<M>, Coeff<M>, Coeff<M>, Coeff<M>)>,
    ) -> Result<(W<M>, W<M>, W<M>, W<M>)> {
        let (a, b, c, d) = values()?;
        let (a, b, c, d) = (coeff(&a), coeff(&b), coeff(&c), coeff(&d));
        (a * b - c).check_zero("completeness: the honest assignment satisfies every gate");
        (c * d).check_zero("completeness: the honest assignment satisfies every gate");
        self.gates += 1;
        let (wa, wb, wc, wd) = (M::adversary("a", a), M::adversary("b", b), M::adversary("c", c), M::adversary("d", d));
        (wa * wb - wc).constrain_adv();
        (wc * wd).constrain_adv();
        Ok((W { h: a, adv: wa }, W { h: b, adv: wb }, W { h: c, adv: wc }, W { h: d, adv: wd }))
    }
}

impl<'dr, M: Model> Driver<'dr> for Vc<M> {
    type F = M;
    type Wire = W<M>;
    const ONE: W<M> = W { h: M::ONE, adv: M::ONE };

    /// An allocated wire is unconstrained (that the default implementation provides exactly this is
    /// proved under C17).
    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<M>>) -> Result<W<M>> {
        let v = coeff(&value()?);
        self.allocs += 1;
        Ok(W { h: v, adv: M::adversary("w", v) })
    }
    fn add(&mut self, lc: impl Fn(Lin<M>) -> Lin<M>) -> W<M> {
        let l = lc(Lin::default());
        W { h: l.h, adv: l.adv }
    }
    fn enforce_zero(&mut self, lc: impl Fn(Lin<M>) -> Lin<M>) -> Result<()> {
        let l = lc(Lin::default());
        self.constraints += 1;
        l.h.check_zero("completeness: the honest assignment satisfies every linear constraint");
        l.adv.constrain_adv();
        Ok(())
    }
}

impl<M: Model> Vc<M> {
    pub fn new() -> Self {
        Vc { gates: 0, allocs: 0, constraints: 0, quiet: false, _m: PhantomData }
    }
}

pub fn just<T: Send>(v: T) -> Always<T> {
    <Always<T> as Maybe<T>>::just(|| v)
}
