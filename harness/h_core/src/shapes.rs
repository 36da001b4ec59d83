//! Written by tools/mkshapes.py.
#![allow(unused_variables)]
use crate::c17::*;

#[derive(Gadget, Write, Consistent)]
pub struct S0<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
}
impl Shape for Kind![Fp; @S0<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S0 {
            m: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S1<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S1<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S1 {
            m: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S2<'a, #[ragu(driver)] Driv: Driver<'a>> {
    pub m: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S2<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S2 {
            m: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S3<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] #[ragu(skip)] pub m: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S3<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S3 {
            m: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S4<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(phantom)] pub m: PhantomData<MyD::Wire>,
}
impl Shape for Kind![Fp; @S4<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S4 {
            m: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S5<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    #[ragu(skip)] #[ragu(wire)] pub b: Driv::Wire,
}
impl Shape for Kind![Fp; @S5<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S5 {
            m: wire(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S6<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    #[ragu(value)] #[ragu(skip)] pub b: DriverValue<D, u64>,
}
impl Shape for Kind![Fp; @S6<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S6 {
            m: wire(dr, n)?,
            b: val::<D>(n),
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S7<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, wire)] pub m: MyD::Wire,
    #[ragu(gadget)] pub b: Element<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S7<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S7 {
            m: wire(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <El as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S8<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S8<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S8 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S9<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    #[ragu(gadget)] #[ragu(skip)] pub b: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S9<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S9 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S10<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, wire)] pub m: MyD::Wire,
    #[ragu(phantom)] pub b: PhantomData<MyD::Wire>,
}
impl Shape for Kind![Fp; @S10<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S10 {
            m: wire(dr, n)?,
            b: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        let _: PhantomData<_> = g.b;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S11<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(value)] pub m: DriverValue<Driv, u64>,
    #[ragu(skip)] #[ragu(wire)] pub b: Driv::Wire,
}
impl Shape for Kind![Fp; @S11<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S11 {
            m: val::<D>(n),
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S12<'dr, D: Driver<'dr>> {
    #[ragu(value)] #[ragu(skip)] pub m: DriverValue<D, u64>,
    #[ragu(gadget)] pub b: Element<'dr, D>,
}
impl Shape for Kind![Fp; @S12<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S12 {
            m: val::<D>(n),
            b: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        <El as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S13<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, value)] pub m: DriverValue<MyD, u64>,
    pub b: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S13<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S13 {
            m: val::<D>(n),
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S14<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(value)] pub m: DriverValue<Driv, u64>,
    #[ragu(skip)] #[ragu(gadget)] pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S14<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S14 {
            m: val::<D>(n),
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S15<'dr, D: Driver<'dr>> {
    #[ragu(value)] #[ragu(skip)] pub m: DriverValue<D, u64>,
    #[ragu(phantom)] pub b: PhantomData<D::Wire>,
}
impl Shape for Kind![Fp; @S15<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S15 {
            m: val::<D>(n),
            b: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        let _: PhantomData<_> = g.b;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S16<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
}
impl Shape for Kind![Fp; @S16<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S16 {
            m: <El as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S17<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Element<'a, Driv>,
    #[ragu(skip)] #[ragu(value)] pub b: DriverValue<Driv, u64>,
}
impl Shape for Kind![Fp; @S17<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S17 {
            m: <El as Shape>::build(dr, n)?,
            b: val::<D>(n),
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S18<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] pub m: Element<'dr, D>,
    #[ragu(gadget)] pub b: Element<'dr, D>,
}
impl Shape for Kind![Fp; @S18<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S18 {
            m: <El as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <El as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S19<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    pub b: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S19<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S19 {
            m: <El as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S20<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Element<'a, Driv>,
    #[ragu(skip)] #[ragu(gadget)] pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S20<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S20 {
            m: <El as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S21<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] pub m: Element<'dr, D>,
    #[ragu(phantom)] pub b: PhantomData<D::Wire>,
}
impl Shape for Kind![Fp; @S21<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S21 {
            m: <El as Shape>::build(dr, n)?,
            b: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        let _: PhantomData<_> = g.b;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S22<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    pub m: Boolean<'mydr, MyD>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
}
impl Shape for Kind![Fp; @S22<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S22 {
            m: <Bo as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S23<'a, #[ragu(driver)] Driv: Driver<'a>> {
    pub m: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(value)] pub b: DriverValue<Driv, u64>,
}
impl Shape for Kind![Fp; @S23<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S23 {
            m: <Bo as Shape>::build(dr, n)?,
            b: val::<D>(n),
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S24<'dr, D: Driver<'dr>> {
    pub m: Boolean<'dr, D>,
    #[ragu(gadget)] pub b: Element<'dr, D>,
}
impl Shape for Kind![Fp; @S24<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S24 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        <El as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S25<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    pub m: Boolean<'mydr, MyD>,
    pub b: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S25<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S25 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S26<'a, #[ragu(driver)] Driv: Driver<'a>> {
    pub m: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(gadget)] pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S26<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S26 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S27<'dr, D: Driver<'dr>> {
    pub m: Boolean<'dr, D>,
    #[ragu(phantom)] pub b: PhantomData<D::Wire>,
}
impl Shape for Kind![Fp; @S27<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S27 {
            m: <Bo as Shape>::build(dr, n)?,
            b: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        let _: PhantomData<_> = g.b;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S28<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, gadget)] pub m: Boolean<'mydr, MyD>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
}
impl Shape for Kind![Fp; @S28<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S28 {
            m: <Bo as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S29<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(gadget)] pub m: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(value)] pub b: DriverValue<Driv, u64>,
}
impl Shape for Kind![Fp; @S29<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S29 {
            m: <Bo as Shape>::build(dr, n)?,
            b: val::<D>(n),
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S30<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] #[ragu(skip)] pub m: Boolean<'dr, D>,
    #[ragu(gadget)] pub b: Element<'dr, D>,
}
impl Shape for Kind![Fp; @S30<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S30 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <El as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S31<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, gadget)] pub m: Boolean<'mydr, MyD>,
    pub b: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S31<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S31 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S32<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(gadget)] pub m: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(gadget)] pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S32<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S32 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S33<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] #[ragu(skip)] pub m: Boolean<'dr, D>,
    #[ragu(phantom)] pub b: PhantomData<D::Wire>,
}
impl Shape for Kind![Fp; @S33<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S33 {
            m: <Bo as Shape>::build(dr, n)?,
            b: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        let _: PhantomData<_> = g.b;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S34<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(phantom)] pub m: PhantomData<MyD::Wire>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
}
impl Shape for Kind![Fp; @S34<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S34 {
            m: PhantomData,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S35<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(phantom)] pub m: PhantomData<Driv::Wire>,
    #[ragu(skip)] #[ragu(value)] pub b: DriverValue<Driv, u64>,
}
impl Shape for Kind![Fp; @S35<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S35 {
            m: PhantomData,
            b: val::<D>(n),
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S36<'dr, D: Driver<'dr>> {
    #[ragu(phantom)] pub m: PhantomData<D::Wire>,
    #[ragu(gadget)] pub b: Element<'dr, D>,
}
impl Shape for Kind![Fp; @S36<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S36 {
            m: PhantomData,
            b: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        <El as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S37<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(phantom)] pub m: PhantomData<MyD::Wire>,
    pub b: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S37<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S37 {
            m: PhantomData,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S38<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(phantom)] pub m: PhantomData<Driv::Wire>,
    #[ragu(skip)] #[ragu(gadget)] pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S38<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S38 {
            m: PhantomData,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S39<'dr, D: Driver<'dr>> {
    #[ragu(phantom)] pub m: PhantomData<D::Wire>,
    #[ragu(phantom)] pub b: PhantomData<D::Wire>,
}
impl Shape for Kind![Fp; @S39<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S39 {
            m: PhantomData,
            b: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        let _: PhantomData<_> = g.b;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S40<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    pub m: Inner<'mydr, MyD>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
}
impl Shape for Kind![Fp; @S40<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S40 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S41<'a, #[ragu(driver)] Driv: Driver<'a>> {
    pub m: Inner<'a, Driv>,
    pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S41<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S41 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S42<'dr, D: Driver<'dr>> {
    pub m: FixedVec<Boolean<'dr, D>, ConstLen<3>>,
    #[ragu(wire)] #[ragu(skip)] pub b: D::Wire,
}
impl Shape for Kind![Fp; @S42<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S42 {
            m: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S43<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    pub m: FixedVec<Boolean<'mydr, MyD>, ConstLen<3>>,
    pub b: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S43<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S43 {
            m: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.m, o);
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S44<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Box<[(Element<'a, Driv>, Boolean<'a, Driv>); 2]>,
    #[ragu(skip)] #[ragu(wire)] pub b: Driv::Wire,
}
impl Shape for Kind![Fp; @S44<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S44 {
            m: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S45<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] pub m: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
    pub b: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S45<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S45 {
            m: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.m, o);
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S46<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip)] pub m: Boolean<'mydr, MyD>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
}
impl Shape for Kind![Fp; @S46<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S46 {
            m: <Bo as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        o.push(Leaf::wire(&g.b));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S47<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] pub m: Boolean<'a, Driv>,
    pub b: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S47<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S47 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <Bo as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S48<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    pub b: Inner<'dr, D>,
}
impl Shape for Kind![Fp; @S48<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S48 {
            m: wire(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S49<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    pub b: Inner<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S49<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S49 {
            m: <El as Shape>::build(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S50<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    pub b: FixedVec<Boolean<'a, Driv>, ConstLen<3>>,
}
impl Shape for Kind![Fp; @S50<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S50 {
            m: wire(dr, n)?,
            b: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S51<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] pub m: Element<'dr, D>,
    pub b: FixedVec<Boolean<'dr, D>, ConstLen<3>>,
}
impl Shape for Kind![Fp; @S51<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S51 {
            m: <El as Shape>::build(dr, n)?,
            b: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S52<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, wire)] pub m: MyD::Wire,
    #[ragu(gadget)] pub b: Box<[(Element<'mydr, MyD>, Boolean<'mydr, MyD>); 2]>,
}
impl Shape for Kind![Fp; @S52<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S52 {
            m: wire(dr, n)?,
            b: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S53<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Element<'a, Driv>,
    #[ragu(gadget)] pub b: Box<[(Element<'a, Driv>, Boolean<'a, Driv>); 2]>,
}
impl Shape for Kind![Fp; @S53<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S53 {
            m: <El as Shape>::build(dr, n)?,
            b: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.b, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S54<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    #[ragu(skip)] pub b: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S54<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S54 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S55<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    #[ragu(skip)] pub b: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S55<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S55 {
            m: <El as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S56<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    #[ragu(gadget)] pub b: Element<'a, Driv>,
    pub z: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S56<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S56 {
            m: wire(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <El as Shape>::flat::<D>(&g.b, o);
        <Bo as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S57<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    pub b: Boolean<'dr, D>,
    #[ragu(gadget)] pub z: Element<'dr, D>,
}
impl Shape for Kind![Fp; @S57<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S57 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <Bo as Shape>::flat::<D>(&g.b, o);
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S58<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
    pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S58<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S58 {
            m: <El as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
        <Bo as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S59<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Element<'a, Driv>,
    pub b: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(wire)] pub z: Driv::Wire,
}
impl Shape for Kind![Fp; @S59<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S59 {
            m: <El as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <Bo as Shape>::flat::<D>(&g.b, o);
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S60<'dr, D: Driver<'dr>> {
    pub m: Boolean<'dr, D>,
    #[ragu(wire)] #[ragu(skip)] pub b: D::Wire,
    #[ragu(gadget)] pub z: Element<'dr, D>,
}
impl Shape for Kind![Fp; @S60<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S60 {
            m: <Bo as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S61<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    pub m: Boolean<'mydr, MyD>,
    #[ragu(gadget)] pub b: Element<'mydr, MyD>,
    #[ragu(skip, wire)] pub z: MyD::Wire,
}
impl Shape for Kind![Fp; @S61<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S61 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        <El as Shape>::flat::<D>(&g.b, o);
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S62<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    #[ragu(skip)] #[ragu(gadget)] pub b: Boolean<'a, Driv>,
    #[ragu(gadget)] pub z: Element<'a, Driv>,
}
impl Shape for Kind![Fp; @S62<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S62 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S63<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    #[ragu(gadget)] pub b: Element<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub z: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S63<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S63 {
            m: wire(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <El as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S64<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, gadget)] pub m: Boolean<'mydr, MyD>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
    #[ragu(gadget)] pub z: Element<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S64<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S64 {
            m: <Bo as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        o.push(Leaf::wire(&g.b));
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S65<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(gadget)] pub m: Boolean<'a, Driv>,
    #[ragu(gadget)] pub b: Element<'a, Driv>,
    #[ragu(skip)] #[ragu(wire)] pub z: Driv::Wire,
}
impl Shape for Kind![Fp; @S65<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S65 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <El as Shape>::flat::<D>(&g.b, o);
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S66<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] pub m: Element<'dr, D>,
    #[ragu(wire)] #[ragu(skip)] pub b: D::Wire,
    #[ragu(gadget)] #[ragu(skip)] pub z: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S66<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S66 {
            m: <El as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S67<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    #[ragu(skip, gadget)] pub b: Boolean<'mydr, MyD>,
    #[ragu(skip, wire)] pub z: MyD::Wire,
}
impl Shape for Kind![Fp; @S67<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S67 {
            m: <El as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S68<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    #[ragu(skip)] #[ragu(value)] pub b: DriverValue<Driv, u64>,
    pub z: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S68<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S68 {
            m: wire(dr, n)?,
            b: val::<D>(n),
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
        <Bo as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S69<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    pub b: Boolean<'dr, D>,
    #[ragu(value)] #[ragu(skip)] pub z: DriverValue<D, u64>,
}
impl Shape for Kind![Fp; @S69<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S69 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: val::<D>(n),
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <Bo as Shape>::flat::<D>(&g.b, o);
        o.push(Leaf::val(rd(g.z.as_ref().map(|x| *x))));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S70<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, value)] pub m: DriverValue<MyD, u64>,
    #[ragu(skip, wire)] pub b: MyD::Wire,
    pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S70<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S70 {
            m: val::<D>(n),
            b: wire(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        o.push(Leaf::wire(&g.b));
        <Bo as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S71<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(value)] pub m: DriverValue<Driv, u64>,
    pub b: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(wire)] pub z: Driv::Wire,
}
impl Shape for Kind![Fp; @S71<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S71 {
            m: val::<D>(n),
            b: <Bo as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        <Bo as Shape>::flat::<D>(&g.b, o);
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S72<'dr, D: Driver<'dr>> {
    pub m: Boolean<'dr, D>,
    #[ragu(wire)] #[ragu(skip)] pub b: D::Wire,
    #[ragu(value)] #[ragu(skip)] pub z: DriverValue<D, u64>,
}
impl Shape for Kind![Fp; @S72<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S72 {
            m: <Bo as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
            z: val::<D>(n),
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
        o.push(Leaf::val(rd(g.z.as_ref().map(|x| *x))));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S73<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    pub m: Boolean<'mydr, MyD>,
    #[ragu(skip, value)] pub b: DriverValue<MyD, u64>,
    #[ragu(skip, wire)] pub z: MyD::Wire,
}
impl Shape for Kind![Fp; @S73<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S73 {
            m: <Bo as Shape>::build(dr, n)?,
            b: val::<D>(n),
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S74<'a, #[ragu(driver)] Driv: Driver<'a>> {
    pub m: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(gadget)] pub b: Boolean<'a, Driv>,
    pub z: FixedVec<Boolean<'a, Driv>, ConstLen<3>>,
}
impl Shape for Kind![Fp; @S74<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S74 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S75<'dr, D: Driver<'dr>> {
    #[ragu(skip)] pub m: Boolean<'dr, D>,
    #[ragu(gadget)] pub b: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
    #[ragu(gadget)] pub z: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
}
impl Shape for Kind![Fp; @S75<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S75 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            z: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.b, o);
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S76<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, value)] pub m: DriverValue<MyD, u64>,
    pub b: Inner<'mydr, MyD>,
    #[ragu(gadget)] pub z: Element<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S76<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S76 {
            m: val::<D>(n),
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S77<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(gadget)] pub m: Boolean<'a, Driv>,
    #[ragu(gadget)] pub b: Element<'a, Driv>,
    #[ragu(gadget)] pub z: Element<'a, Driv>,
}
impl Shape for Kind![Fp; @S77<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S77 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <El as Shape>::flat::<D>(&g.b, o);
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S78<'dr, D: Driver<'dr>> {
    pub m: Inner<'dr, D>,
    #[ragu(gadget)] pub b: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
    #[ragu(gadget)] #[ragu(skip)] pub z: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S78<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S78 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S79<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, wire)] pub m: MyD::Wire,
    #[ragu(phantom)] pub b: PhantomData<MyD::Wire>,
    #[ragu(phantom)] pub z: PhantomData<MyD::Wire>,
}
impl Shape for Kind![Fp; @S79<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S79 {
            m: wire(dr, n)?,
            b: PhantomData,
            z: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        let _: PhantomData<_> = g.b;
        let _: PhantomData<_> = g.z;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S80<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    #[ragu(gadget)] pub b: Box<[(Element<'a, Driv>, Boolean<'a, Driv>); 2]>,
    #[ragu(skip)] #[ragu(wire)] pub z: Driv::Wire,
}
impl Shape for Kind![Fp; @S80<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S80 {
            m: wire(dr, n)?,
            b: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.b, o);
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S81<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] pub m: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
    #[ragu(phantom)] pub b: PhantomData<D::Wire>,
    #[ragu(gadget)] pub z: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
}
impl Shape for Kind![Fp; @S81<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S81 {
            m: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            b: PhantomData,
            z: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.m, o);
        let _: PhantomData<_> = g.b;
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S82<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(phantom)] pub m: PhantomData<MyD::Wire>,
    pub b: Inner<'mydr, MyD>,
    pub z: Inner<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S82<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S82 {
            m: PhantomData,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S83<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(value)] pub m: DriverValue<Driv, u64>,
    #[ragu(skip)] #[ragu(wire)] pub b: Driv::Wire,
    #[ragu(gadget)] pub z: Element<'a, Driv>,
}
impl Shape for Kind![Fp; @S83<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S83 {
            m: val::<D>(n),
            b: wire(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        o.push(Leaf::wire(&g.b));
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S84<'dr, D: Driver<'dr>> {
    pub m: Boolean<'dr, D>,
    #[ragu(skip)] pub b: Boolean<'dr, D>,
    #[ragu(wire)] #[ragu(skip)] pub z: D::Wire,
}
impl Shape for Kind![Fp; @S84<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S84 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S85<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    pub m: Inner<'mydr, MyD>,
    #[ragu(skip, value)] pub b: DriverValue<MyD, u64>,
    #[ragu(skip, gadget)] pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S85<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S85 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: val::<D>(n),
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S86<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    pub b: Inner<'a, Driv>,
    #[ragu(phantom)] pub z: PhantomData<Driv::Wire>,
}
impl Shape for Kind![Fp; @S86<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S86 {
            m: wire(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: PhantomData,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        let _: PhantomData<_> = g.z;
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S87<'dr, D: Driver<'dr>> {
    #[ragu(skip)] pub m: Boolean<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub b: Boolean<'dr, D>,
    #[ragu(skip)] pub z: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S87<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S87 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S88<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(phantom)] pub m: PhantomData<MyD::Wire>,
    pub b: Boolean<'mydr, MyD>,
    pub z: FixedVec<Boolean<'mydr, MyD>, ConstLen<3>>,
}
impl Shape for Kind![Fp; @S88<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S88 {
            m: PhantomData,
            b: <Bo as Shape>::build(dr, n)?,
            z: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        <Bo as Shape>::flat::<D>(&g.b, o);
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S89<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Element<'a, Driv>,
    #[ragu(gadget)] pub b: Element<'a, Driv>,
    #[ragu(skip)] pub z: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S89<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S89 {
            m: <El as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <El as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S90<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    #[ragu(gadget)] #[ragu(skip)] pub b: Boolean<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub z: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S90<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S90 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S91<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, wire)] pub m: MyD::Wire,
    #[ragu(skip)] pub b: Boolean<'mydr, MyD>,
    #[ragu(skip, gadget)] pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S91<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S91 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S92<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(gadget)] pub m: Boolean<'a, Driv>,
    pub b: Inner<'a, Driv>,
    #[ragu(gadget)] pub z: Element<'a, Driv>,
}
impl Shape for Kind![Fp; @S92<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S92 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S93<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] #[ragu(skip)] pub m: Boolean<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub b: Boolean<'dr, D>,
    pub z: Inner<'dr, D>,
}
impl Shape for Kind![Fp; @S93<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S93 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S94<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, wire)] pub m: MyD::Wire,
    pub b: FixedVec<Boolean<'mydr, MyD>, ConstLen<3>>,
    pub z: FixedVec<Boolean<'mydr, MyD>, ConstLen<3>>,
}
impl Shape for Kind![Fp; @S94<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S94 {
            m: wire(dr, n)?,
            b: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
            z: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.b, o);
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S95<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Element<'a, Driv>,
    #[ragu(phantom)] pub b: PhantomData<Driv::Wire>,
    #[ragu(gadget)] pub z: Box<[(Element<'a, Driv>, Boolean<'a, Driv>); 2]>,
}
impl Shape for Kind![Fp; @S95<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S95 {
            m: <El as Shape>::build(dr, n)?,
            b: PhantomData,
            z: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        let _: PhantomData<_> = g.b;
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S96<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    #[ragu(skip)] pub b: Boolean<'dr, D>,
    #[ragu(gadget)] pub z: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
}
impl Shape for Kind![Fp; @S96<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S96 {
            m: wire(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S97<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(phantom)] pub m: PhantomData<MyD::Wire>,
    #[ragu(gadget)] pub b: Box<[(Element<'mydr, MyD>, Boolean<'mydr, MyD>); 2]>,
    #[ragu(gadget)] pub z: Element<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S97<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S97 {
            m: PhantomData,
            b: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.b, o);
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S98<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(gadget)] pub m: Boolean<'a, Driv>,
    #[ragu(phantom)] pub b: PhantomData<Driv::Wire>,
    #[ragu(gadget)] pub z: Element<'a, Driv>,
}
impl Shape for Kind![Fp; @S98<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S98 {
            m: <Bo as Shape>::build(dr, n)?,
            b: PhantomData,
            z: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        let _: PhantomData<_> = g.b;
        <El as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S99<'dr, D: Driver<'dr>> {
    #[ragu(wire)] #[ragu(skip)] pub m: D::Wire,
    pub b: Inner<'dr, D>,
    pub z: Inner<'dr, D>,
}
impl Shape for Kind![Fp; @S99<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S99 {
            m: wire(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S100<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Box<[(Element<'mydr, MyD>, Boolean<'mydr, MyD>); 2]>,
    pub b: Inner<'mydr, MyD>,
    #[ragu(skip, gadget)] pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S100<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S100 {
            m: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.m, o);
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S101<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(phantom)] pub m: PhantomData<Driv::Wire>,
    #[ragu(skip)] pub b: Boolean<'a, Driv>,
    pub z: FixedVec<Boolean<'a, Driv>, ConstLen<3>>,
}
impl Shape for Kind![Fp; @S101<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S101 {
            m: PhantomData,
            b: <Bo as Shape>::build(dr, n)?,
            z: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        let _: PhantomData<_> = g.m;
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S102<'dr, D: Driver<'dr>> {
    #[ragu(value)] #[ragu(skip)] pub m: DriverValue<D, u64>,
    pub b: Boolean<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub z: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S102<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S102 {
            m: val::<D>(n),
            b: <Bo as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::val(rd(g.m.as_ref().map(|x| *x))));
        <Bo as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S103<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    pub b: Boolean<'mydr, MyD>,
    #[ragu(skip)] pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S103<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S103 {
            m: <El as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <Bo as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S104<'a, #[ragu(driver)] Driv: Driver<'a>> {
    pub m: Inner<'a, Driv>,
    pub b: Inner<'a, Driv>,
    pub z: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S104<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S104 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        <Bo as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S105<'dr, D: Driver<'dr>> {
    pub m: Inner<'dr, D>,
    pub b: Inner<'dr, D>,
    #[ragu(wire)] #[ragu(skip)] pub z: D::Wire,
}
impl Shape for Kind![Fp; @S105<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S105 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        o.push(Leaf::wire(&g.z));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S106<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, wire)] pub m: MyD::Wire,
    pub b: Inner<'mydr, MyD>,
    #[ragu(skip)] pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S106<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S106 {
            m: wire(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S107<'a, #[ragu(driver)] Driv: Driver<'a>> {
    pub m: Inner<'a, Driv>,
    #[ragu(skip)] #[ragu(wire)] pub b: Driv::Wire,
    #[ragu(gadget)] pub z: Box<[(Element<'a, Driv>, Boolean<'a, Driv>); 2]>,
}
impl Shape for Kind![Fp; @S107<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S107 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: wire(dr, n)?,
            z: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::wire(&g.b));
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S108<'dr, D: Driver<'dr>> {
    pub m: Inner<'dr, D>,
    #[ragu(value)] #[ragu(skip)] pub b: DriverValue<D, u64>,
    pub z: FixedVec<Boolean<'dr, D>, ConstLen<3>>,
}
impl Shape for Kind![Fp; @S108<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S108 {
            m: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            b: val::<D>(n),
            z: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.m, o);
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.z, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S109<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(skip, gadget)] pub m: Boolean<'mydr, MyD>,
    #[ragu(gadget)] pub b: Element<'mydr, MyD>,
    #[ragu(skip, gadget)] pub z: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S109<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S109 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        <El as Shape>::flat::<D>(&g.b, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S110<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(skip)] #[ragu(wire)] pub m: Driv::Wire,
    #[ragu(skip)] #[ragu(value)] pub b: DriverValue<Driv, u64>,
    #[ragu(gadget)] pub z: Element<'a, Driv>,
    pub a: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(gadget)] pub k: Boolean<'a, Driv>,
    #[ragu(phantom)] pub c: PhantomData<Driv::Wire>,
    #[ragu(skip)] #[ragu(wire)] pub y: Driv::Wire,
    pub d: Boolean<'a, Driv>,
}
impl Shape for Kind![Fp; @S110<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S110 {
            m: wire(dr, n)?,
            b: val::<D>(n),
            z: <El as Shape>::build(dr, n)?,
            a: <Bo as Shape>::build(dr, n)?,
            k: <Bo as Shape>::build(dr, n)?,
            c: PhantomData,
            y: wire(dr, n)?,
            d: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        o.push(Leaf::wire(&g.m));
        o.push(Leaf::val(rd(g.b.as_ref().map(|x| *x))));
        <El as Shape>::flat::<D>(&g.z, o);
        <Bo as Shape>::flat::<D>(&g.a, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.k, o));
        let _: PhantomData<_> = g.c;
        o.push(Leaf::wire(&g.y));
        <Bo as Shape>::flat::<D>(&g.d, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S111<'dr, D: Driver<'dr>> {
    pub m: Boolean<'dr, D>,
    pub b: Inner<'dr, D>,
    #[ragu(phantom)] pub z: PhantomData<D::Wire>,
    pub a: FixedVec<Boolean<'dr, D>, ConstLen<3>>,
    #[ragu(wire)] #[ragu(skip)] pub k: D::Wire,
    #[ragu(gadget)] #[ragu(skip)] pub c: Boolean<'dr, D>,
    #[ragu(value)] #[ragu(skip)] pub y: DriverValue<D, u64>,
    #[ragu(gadget)] pub d: Element<'dr, D>,
    #[ragu(skip)] pub q: Boolean<'dr, D>,
    #[ragu(gadget)] pub e: Box<[(Element<'dr, D>, Boolean<'dr, D>); 2]>,
    #[ragu(wire)] #[ragu(skip)] pub x: D::Wire,
}
impl Shape for Kind![Fp; @S111<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S111 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            z: PhantomData,
            a: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
            k: wire(dr, n)?,
            c: <Bo as Shape>::build(dr, n)?,
            y: val::<D>(n),
            d: <El as Shape>::build(dr, n)?,
            q: <Bo as Shape>::build(dr, n)?,
            e: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            x: wire(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <Bo as Shape>::flat::<D>(&g.m, o);
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.b, o);
        let _: PhantomData<_> = g.z;
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.a, o);
        o.push(Leaf::wire(&g.k));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.c, o));
        o.push(Leaf::val(rd(g.y.as_ref().map(|x| *x))));
        <El as Shape>::flat::<D>(&g.d, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.q, o));
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.e, o);
        o.push(Leaf::wire(&g.x));
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S112<'mydr, #[ragu(driver)] MyD: Driver<'mydr>> {
    #[ragu(gadget)] pub m: Element<'mydr, MyD>,
    #[ragu(gadget)] pub b: Element<'mydr, MyD>,
    #[ragu(gadget)] pub z: Element<'mydr, MyD>,
    #[ragu(gadget)] pub a: Element<'mydr, MyD>,
    #[ragu(skip, wire)] pub k: MyD::Wire,
    #[ragu(skip, wire)] pub c: MyD::Wire,
    #[ragu(skip, wire)] pub y: MyD::Wire,
    #[ragu(skip, wire)] pub d: MyD::Wire,
    pub q: Boolean<'mydr, MyD>,
    pub e: Boolean<'mydr, MyD>,
    pub x: Boolean<'mydr, MyD>,
    pub f: Boolean<'mydr, MyD>,
}
impl Shape for Kind![Fp; @S112<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S112 {
            m: <El as Shape>::build(dr, n)?,
            b: <El as Shape>::build(dr, n)?,
            z: <El as Shape>::build(dr, n)?,
            a: <El as Shape>::build(dr, n)?,
            k: wire(dr, n)?,
            c: wire(dr, n)?,
            y: wire(dr, n)?,
            d: wire(dr, n)?,
            q: <Bo as Shape>::build(dr, n)?,
            e: <Bo as Shape>::build(dr, n)?,
            x: <Bo as Shape>::build(dr, n)?,
            f: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <El as Shape>::flat::<D>(&g.m, o);
        <El as Shape>::flat::<D>(&g.b, o);
        <El as Shape>::flat::<D>(&g.z, o);
        <El as Shape>::flat::<D>(&g.a, o);
        o.push(Leaf::wire(&g.k));
        o.push(Leaf::wire(&g.c));
        o.push(Leaf::wire(&g.y));
        o.push(Leaf::wire(&g.d));
        <Bo as Shape>::flat::<D>(&g.q, o);
        <Bo as Shape>::flat::<D>(&g.e, o);
        <Bo as Shape>::flat::<D>(&g.x, o);
        <Bo as Shape>::flat::<D>(&g.f, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S113<'a, #[ragu(driver)] Driv: Driver<'a>> {
    #[ragu(gadget)] pub m: Box<[(Element<'a, Driv>, Boolean<'a, Driv>); 2]>,
    #[ragu(skip)] pub b: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(value)] pub z: DriverValue<Driv, u64>,
    pub a: FixedVec<Boolean<'a, Driv>, ConstLen<3>>,
    #[ragu(skip)] #[ragu(wire)] pub k: Driv::Wire,
    pub c: Inner<'a, Driv>,
    #[ragu(phantom)] pub y: PhantomData<Driv::Wire>,
    pub d: Boolean<'a, Driv>,
    #[ragu(skip)] #[ragu(gadget)] pub q: Boolean<'a, Driv>,
    #[ragu(gadget)] pub e: Element<'a, Driv>,
}
impl Shape for Kind![Fp; @S113<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S113 {
            m: <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: val::<D>(n),
            a: <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::build(dr, n)?,
            k: wire(dr, n)?,
            c: <Kind![Fp; @Inner<'_, _>] as Shape>::build(dr, n)?,
            y: PhantomData,
            d: <Bo as Shape>::build(dr, n)?,
            q: <Bo as Shape>::build(dr, n)?,
            e: <El as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        <PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>> as Shape>::flat::<D>(&g.m, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        o.push(Leaf::val(rd(g.z.as_ref().map(|x| *x))));
        <FixedVec<PhantomData<Bo>, ConstLen<3>> as Shape>::flat::<D>(&g.a, o);
        o.push(Leaf::wire(&g.k));
        <Kind![Fp; @Inner<'_, _>] as Shape>::flat::<D>(&g.c, o);
        let _: PhantomData<_> = g.y;
        <Bo as Shape>::flat::<D>(&g.d, o);
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.q, o));
        <El as Shape>::flat::<D>(&g.e, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
#[derive(Gadget, Write, Consistent)]
pub struct S114<'dr, D: Driver<'dr>> {
    #[ragu(gadget)] #[ragu(skip)] pub m: Boolean<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub b: Boolean<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub z: Boolean<'dr, D>,
    #[ragu(gadget)] #[ragu(skip)] pub a: Boolean<'dr, D>,
    #[ragu(skip)] pub k: Boolean<'dr, D>,
    #[ragu(skip)] pub c: Boolean<'dr, D>,
    pub y: Boolean<'dr, D>,
    pub d: Boolean<'dr, D>,
}
impl Shape for Kind![Fp; @S114<'_, _>] {
    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {
        Ok(S114 {
            m: <Bo as Shape>::build(dr, n)?,
            b: <Bo as Shape>::build(dr, n)?,
            z: <Bo as Shape>::build(dr, n)?,
            a: <Bo as Shape>::build(dr, n)?,
            k: <Bo as Shape>::build(dr, n)?,
            c: <Bo as Shape>::build(dr, n)?,
            y: <Bo as Shape>::build(dr, n)?,
            d: <Bo as Shape>::build(dr, n)?,
        })
    }
    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.m, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.b, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.z, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.a, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.k, o));
        skipped(o, |o| <Bo as Shape>::flat::<D>(&g.c, o));
        <Bo as Shape>::flat::<D>(&g.y, o);
        <Bo as Shape>::flat::<D>(&g.d, o);
    }
    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {
        Consistent::enforce_consistent(g, dr)
    }
}
pub fn each<V: Visit>(v: &mut V) {
    v.shape::<Kind![Fp; @S0<'_, _>]>("w");
    v.shape::<Kind![Fp; @S1<'_, _>]>("e");
    v.shape::<Kind![Fp; @S2<'_, _>]>("b");
    v.shape::<Kind![Fp; @S3<'_, _>]>("s");
    v.shape::<Kind![Fp; @S4<'_, _>]>("m");
    v.shape::<Kind![Fp; @S5<'_, _>]>("ww");
    v.shape::<Kind![Fp; @S6<'_, _>]>("wv");
    v.shape::<Kind![Fp; @S7<'_, _>]>("we");
    v.shape::<Kind![Fp; @S8<'_, _>]>("wb");
    v.shape::<Kind![Fp; @S9<'_, _>]>("ws");
    v.shape::<Kind![Fp; @S10<'_, _>]>("wm");
    v.shape::<Kind![Fp; @S11<'_, _>]>("vw");
    v.shape::<Kind![Fp; @S12<'_, _>]>("ve");
    v.shape::<Kind![Fp; @S13<'_, _>]>("vb");
    v.shape::<Kind![Fp; @S14<'_, _>]>("vs");
    v.shape::<Kind![Fp; @S15<'_, _>]>("vm");
    v.shape::<Kind![Fp; @S16<'_, _>]>("ew");
    v.shape::<Kind![Fp; @S17<'_, _>]>("ev");
    v.shape::<Kind![Fp; @S18<'_, _>]>("ee");
    v.shape::<Kind![Fp; @S19<'_, _>]>("eb");
    v.shape::<Kind![Fp; @S20<'_, _>]>("es");
    v.shape::<Kind![Fp; @S21<'_, _>]>("em");
    v.shape::<Kind![Fp; @S22<'_, _>]>("bw");
    v.shape::<Kind![Fp; @S23<'_, _>]>("bv");
    v.shape::<Kind![Fp; @S24<'_, _>]>("be");
    v.shape::<Kind![Fp; @S25<'_, _>]>("bb");
    v.shape::<Kind![Fp; @S26<'_, _>]>("bs");
    v.shape::<Kind![Fp; @S27<'_, _>]>("bm");
    v.shape::<Kind![Fp; @S28<'_, _>]>("sw");
    v.shape::<Kind![Fp; @S29<'_, _>]>("sv");
    v.shape::<Kind![Fp; @S30<'_, _>]>("se");
    v.shape::<Kind![Fp; @S31<'_, _>]>("sb");
    v.shape::<Kind![Fp; @S32<'_, _>]>("ss");
    v.shape::<Kind![Fp; @S33<'_, _>]>("sm");
    v.shape::<Kind![Fp; @S34<'_, _>]>("mw");
    v.shape::<Kind![Fp; @S35<'_, _>]>("mv");
    v.shape::<Kind![Fp; @S36<'_, _>]>("me");
    v.shape::<Kind![Fp; @S37<'_, _>]>("mb");
    v.shape::<Kind![Fp; @S38<'_, _>]>("ms");
    v.shape::<Kind![Fp; @S39<'_, _>]>("mm");
    v.shape::<Kind![Fp; @S40<'_, _>]>("nw");
    v.shape::<Kind![Fp; @S41<'_, _>]>("nb");
    v.shape::<Kind![Fp; @S42<'_, _>]>("fw");
    v.shape::<Kind![Fp; @S43<'_, _>]>("fb");
    v.shape::<Kind![Fp; @S44<'_, _>]>("pw");
    v.shape::<Kind![Fp; @S45<'_, _>]>("pb");
    v.shape::<Kind![Fp; @S46<'_, _>]>("uw");
    v.shape::<Kind![Fp; @S47<'_, _>]>("ub");
    v.shape::<Kind![Fp; @S48<'_, _>]>("wn");
    v.shape::<Kind![Fp; @S49<'_, _>]>("en");
    v.shape::<Kind![Fp; @S50<'_, _>]>("wf");
    v.shape::<Kind![Fp; @S51<'_, _>]>("ef");
    v.shape::<Kind![Fp; @S52<'_, _>]>("wp");
    v.shape::<Kind![Fp; @S53<'_, _>]>("ep");
    v.shape::<Kind![Fp; @S54<'_, _>]>("wu");
    v.shape::<Kind![Fp; @S55<'_, _>]>("eu");
    v.shape::<Kind![Fp; @S56<'_, _>]>("web");
    v.shape::<Kind![Fp; @S57<'_, _>]>("wbe");
    v.shape::<Kind![Fp; @S58<'_, _>]>("ewb");
    v.shape::<Kind![Fp; @S59<'_, _>]>("ebw");
    v.shape::<Kind![Fp; @S60<'_, _>]>("bwe");
    v.shape::<Kind![Fp; @S61<'_, _>]>("bew");
    v.shape::<Kind![Fp; @S62<'_, _>]>("wse");
    v.shape::<Kind![Fp; @S63<'_, _>]>("wes");
    v.shape::<Kind![Fp; @S64<'_, _>]>("swe");
    v.shape::<Kind![Fp; @S65<'_, _>]>("sew");
    v.shape::<Kind![Fp; @S66<'_, _>]>("ews");
    v.shape::<Kind![Fp; @S67<'_, _>]>("esw");
    v.shape::<Kind![Fp; @S68<'_, _>]>("wvb");
    v.shape::<Kind![Fp; @S69<'_, _>]>("wbv");
    v.shape::<Kind![Fp; @S70<'_, _>]>("vwb");
    v.shape::<Kind![Fp; @S71<'_, _>]>("vbw");
    v.shape::<Kind![Fp; @S72<'_, _>]>("bwv");
    v.shape::<Kind![Fp; @S73<'_, _>]>("bvw");
    v.shape::<Kind![Fp; @S74<'_, _>]>("bsf");
    v.shape::<Kind![Fp; @S75<'_, _>]>("upp");
    v.shape::<Kind![Fp; @S76<'_, _>]>("vne");
    v.shape::<Kind![Fp; @S77<'_, _>]>("see");
    v.shape::<Kind![Fp; @S78<'_, _>]>("nps");
    v.shape::<Kind![Fp; @S79<'_, _>]>("wmm");
    v.shape::<Kind![Fp; @S80<'_, _>]>("wpw");
    v.shape::<Kind![Fp; @S81<'_, _>]>("pmp");
    v.shape::<Kind![Fp; @S82<'_, _>]>("mnn");
    v.shape::<Kind![Fp; @S83<'_, _>]>("vwe");
    v.shape::<Kind![Fp; @S84<'_, _>]>("buw");
    v.shape::<Kind![Fp; @S85<'_, _>]>("nvs");
    v.shape::<Kind![Fp; @S86<'_, _>]>("wnm");
    v.shape::<Kind![Fp; @S87<'_, _>]>("usu");
    v.shape::<Kind![Fp; @S88<'_, _>]>("mbf");
    v.shape::<Kind![Fp; @S89<'_, _>]>("eeu");
    v.shape::<Kind![Fp; @S90<'_, _>]>("wss");
    v.shape::<Kind![Fp; @S91<'_, _>]>("wus");
    v.shape::<Kind![Fp; @S92<'_, _>]>("sne");
    v.shape::<Kind![Fp; @S93<'_, _>]>("ssn");
    v.shape::<Kind![Fp; @S94<'_, _>]>("wff");
    v.shape::<Kind![Fp; @S95<'_, _>]>("emp");
    v.shape::<Kind![Fp; @S96<'_, _>]>("wup");
    v.shape::<Kind![Fp; @S97<'_, _>]>("mpe");
    v.shape::<Kind![Fp; @S98<'_, _>]>("sme");
    v.shape::<Kind![Fp; @S99<'_, _>]>("wnn");
    v.shape::<Kind![Fp; @S100<'_, _>]>("pns");
    v.shape::<Kind![Fp; @S101<'_, _>]>("muf");
    v.shape::<Kind![Fp; @S102<'_, _>]>("vbs");
    v.shape::<Kind![Fp; @S103<'_, _>]>("ebu");
    v.shape::<Kind![Fp; @S104<'_, _>]>("nnb");
    v.shape::<Kind![Fp; @S105<'_, _>]>("nnw");
    v.shape::<Kind![Fp; @S106<'_, _>]>("wnu");
    v.shape::<Kind![Fp; @S107<'_, _>]>("nwp");
    v.shape::<Kind![Fp; @S108<'_, _>]>("nvf");
    v.shape::<Kind![Fp; @S109<'_, _>]>("ses");
    v.shape::<Kind![Fp; @S110<'_, _>]>("wvebsmwb");
    v.shape::<Kind![Fp; @S111<'_, _>]>("bnmfwsveupw");
    v.shape::<Kind![Fp; @S112<'_, _>]>("eeeewwwwbbbb");
    v.shape::<Kind![Fp; @S113<'_, _>]>("puvfwnmbse");
    v.shape::<Kind![Fp; @S114<'_, _>]>("ssssuubb");
    v.shape::<()>("unit");
    v.shape::<[PhantomData<Bo>; 0]>("array of 0");
    v.shape::<[PhantomData<El>; 1]>("array of 1");
    v.shape::<[PhantomData<Bo>; 5]>("array of 5");
    v.shape::<(PhantomData<Bo>, PhantomData<El>)>("pair");
    v.shape::<(PhantomData<()>, PhantomData<(PhantomData<Bo>, PhantomData<Bo>)>)>("pair of unit and pair");
    v.shape::<PhantomData<Box<Bo>>>("box");
    v.shape::<PhantomData<Box<(PhantomData<El>, PhantomData<Bo>)>>>("box of pair");
    v.shape::<FixedVec<PhantomData<Bo>, ConstLen<0>>>("fixed 0");
    v.shape::<FixedVec<PhantomData<Bo>, ConstLen<1>>>("fixed 1");
    v.shape::<FixedVec<PhantomData<Kind![Fp; @S110<'_, _>]>, ConstLen<4>>>("fixed 4 of wvebsmwb");
    v.shape::<[PhantomData<FixedVec<PhantomData<(PhantomData<El>, PhantomData<Bo>)>, ConstLen<2>>>; 3]>("array of fixed of pairs");
    v.shape::<El>("element");
    v.shape::<Bo>("boolean");
    v.shape::<Kind![Fp; @Inner<'_, _>]>("Inner");
    v.shape::<Kind![Fp; @Generic<'_, _, 3>]>("Generic 3");
    v.shape::<Kind![Fp; @Tagged<'_, _, u8>]>("Tagged");
    v.shape::<Kind![Fp; @Scaled<'_, _, Third>]>("Scaled");
}
