"""C17, unbounded: provided gadget implementations, wire conversion, and the simulator and emulators, for any gadget and any length."""
import re

from field import prelude
from verus import ASSERTS, Lost, close, mask

CORE = "crates/ragu_core/src/"
PRIM = "crates/ragu_primitives/src/"
GADGETS, FOREIGN, CONVERT, LINEXP, EMULATOR, DRIVERS, ROUTINES = (CORE + x for x in ("gadgets.rs", "gadgets/foreign.rs", "convert.rs", "drivers/linexp.rs", "drivers/emulator.rs", "drivers.rs", "routines.rs"))
WRITES, VEC, PROMOTION, CONSISTENT, SIMULATOR, PIPE = (PRIM + x for x in ("foreign.rs", "vec.rs", "promotion.rs", "consistent.rs", "simulator.rs", "io/pipe.rs"))

ASSUME = [
    "a nested gadget treats its own wires as the contract of the trait says (derived implementations: the bounded contracts); it is fungible (a type has a fixed number of wires)",
    "fewer than 2^64 wires; witness closures are functions",
]

SPEC = """
global size_of usize == 8;
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
pub struct Error {}
/// f of every member, one after the other
pub open spec fn cat<G, T>(s: Seq<G>, f: spec_fn(G) -> Seq<T>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last(), f) + f(s.last()) } }
pub open spec fn free<T>(rf: spec_fn(int, T) -> bool, k: int, s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> !rf(k + i, #[trigger] s[i]) }
pub proof fn split<T>(rf: spec_fn(int, T) -> bool, k: int, a: Seq<T>, b: Seq<T>) ensures free(rf, k, a + b) == (free(rf, k, a) && free(rf, k + a.len(), b)) {
    let s = a + b;
    if free(rf, k, s) {
        assert forall|i: int| 0 <= i < a.len() implies !rf(k + i, #[trigger] a[i]) by { assert(s[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies !rf(k + a.len() + i, #[trigger] b[i]) by { assert(s[a.len() + i] == b[i]); }
    }
    if free(rf, k, a) && free(rf, k + a.len(), b) {
        assert forall|i: int| 0 <= i < s.len() implies !rf(k + i, #[trigger] s[i]) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } }
    }
}
pub proof fn cat_split<G, T>(s: Seq<G>, f: spec_fn(G) -> Seq<T>, i: int) requires 0 <= i <= s.len() ensures cat(s, f) == cat(s.take(i), f) + cat(s.skip(i), f) decreases s.len() {
    if i == s.len() { assert(s.take(i) =~= s); assert(cat(s.skip(i), f) =~= Seq::empty()); assert(cat(s, f) + Seq::<T>::empty() =~= cat(s, f)); }
    else {
        cat_split(s.drop_last(), f, i);
        assert(s.drop_last().take(i) =~= s.take(i)); assert(s.skip(i).drop_last() =~= s.drop_last().skip(i)); assert(s.skip(i).last() == s.last());
        assert(cat(s, f) =~= cat(s.take(i), f) + cat(s.skip(i), f));
    }
}
pub proof fn step<G, T>(s: Seq<G>, f: spec_fn(G) -> Seq<T>, i: int, rf: spec_fn(int, T) -> bool, k: int) requires 0 <= i < s.len()
    ensures cat(s.take(i + 1), f) == cat(s.take(i), f) + f(s[i]), free(rf, k, cat(s.take(i + 1), f)) == (free(rf, k, cat(s.take(i), f)) && free(rf, k + cat(s.take(i), f).len(), f(s[i]))),
        free(rf, k, cat(s, f)) ==> free(rf, k, cat(s.take(i + 1), f)), cat(s.take(i + 1), f).len() <= cat(s, f).len() {
    assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]);
    split(rf, k, cat(s.take(i), f), f(s[i]));
    cat_split(s, f, i + 1); split(rf, k, cat(s.take(i + 1), f), cat(s.skip(i + 1), f));
}
pub proof fn pushed<G, T>(s: Seq<G>, x: G, f: spec_fn(G) -> Seq<T>) ensures cat(s.push(x), f) == cat(s, f) + f(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn whole<G>(s: Seq<G>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }

/// conversion of wires from one driver to another
pub trait WireMap: Sized {
    /// the wires converted so far
    spec fn log(&self) -> Seq<F>;
    spec fn inv(&self) -> bool;
    #[verifier::prophetic] spec fn frame(&self, o: &Self) -> bool;
    spec fn image(k: int, w: F) -> F;
    spec fn refused(k: int, w: F) -> bool;
    proof fn framed(&self, b: &Self, c: &Self) ensures self.frame(b) && b.frame(c) ==> self.frame(c), self.frame(self);
    fn convert_wire(&mut self, wire: &F) -> (r: Result<F, Error>) requires old(self).inv(), old(self).log().len() < usize::MAX
        ensures r.is_ok() == !Self::refused(old(self).log().len() as int, *wire), r.is_ok() ==> final(self).inv() && final(self).frame(old(self)) && final(self).log() == old(self).log().push(*wire) && r->Ok_0 == Self::image(old(self).log().len() as int, *wire);
}
pub open spec fn rw<WM: WireMap>() -> spec_fn(int, F) -> bool { |k: int, w: F| WM::refused(k, w) }
pub open spec fn image_of<WM: WireMap>(k: int, ws: Seq<F>) -> Seq<F> { Seq::new(ws.len(), |i: int| WM::image(k + i, ws[i])) }
pub proof fn image_split<WM: WireMap>(k: int, a: Seq<F>, b: Seq<F>) ensures image_of::<WM>(k, a + b) == image_of::<WM>(k, a) + image_of::<WM>(k + a.len(), b) {
    let s = a + b;
    assert forall|i: int| 0 <= i < s.len() implies WM::image(k + i, s[i]) == #[trigger] (image_of::<WM>(k, a) + image_of::<WM>(k + a.len(), b))[i] by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); assert(k + i == k + a.len() + (i - a.len())); } }
    assert(image_of::<WM>(k, s) =~= image_of::<WM>(k, a) + image_of::<WM>(k + a.len(), b));
}
/// a driver: the equalities and the consistency constraints enforced on it so far
pub struct Dr { pub eqs: Ghost<Seq<(F, F)>>, pub checks: Ghost<Seq<int>> }
pub uninterp spec fn eq_refused(k: int, p: (F, F)) -> bool;
pub uninterp spec fn check_refused(k: int, c: int) -> bool;
pub uninterp spec fn elem_refused(k: int, e: F) -> bool;
pub open spec fn re() -> spec_fn(int, (F, F)) -> bool { |k: int, p: (F, F)| eq_refused(k, p) }
pub open spec fn rc() -> spec_fn(int, int) -> bool { |k: int, c: int| check_refused(k, c) }
pub open spec fn rb() -> spec_fn(int, F) -> bool { |k: int, e: F| elem_refused(k, e) }
pub struct Buf { pub out: Ghost<Seq<F>> }
pub open spec fn zip(a: Seq<F>, b: Seq<F>) -> Seq<(F, F)> { Seq::new(a.len(), |i: int| (a[i], b[i])) }
pub trait Gad: Sized {
    spec fn wires(&self) -> Seq<F>;
    spec fn elems(&self) -> Seq<F>;
    spec fn constraints(&self) -> Seq<int>;
    spec fn width() -> nat;
    proof fn fungible(&self) ensures self.wires().len() == Self::width();
    fn map_gadget<WM: WireMap>(this: &Self, wm: &mut WM) -> (r: Result<Self, Error>) requires old(wm).inv(), old(wm).log().len() + this.wires().len() <= usize::MAX
        ensures r.is_ok() == free(rw::<WM>(), old(wm).log().len() as int, this.wires()), r.is_ok() ==> final(wm).inv() && final(wm).frame(old(wm)) && final(wm).log() == old(wm).log() + this.wires() && r->Ok_0.wires() == image_of::<WM>(old(wm).log().len() as int, this.wires());
    fn enforce_equal_gadget(dr: &mut Dr, a: &Self, b: &Self) -> (r: Result<(), Error>)
        ensures r.is_ok() == free(re(), old(dr).eqs@.len() as int, zip(a.wires(), b.wires())), r.is_ok() ==> final(dr).eqs@ == old(dr).eqs@ + zip(a.wires(), b.wires()), final(dr).checks@ == old(dr).checks@;
    fn write_gadget(this: &Self, dr: &mut Dr, buf: &mut Buf) -> (r: Result<(), Error>)
        ensures r.is_ok() == free(rb(), old(buf).out@.len() as int, this.elems()), r.is_ok() ==> final(buf).out@ == old(buf).out@ + this.elems();
    fn enforce_consistent(&self, dr: &mut Dr) -> (r: Result<(), Error>)
        ensures r.is_ok() == free(rc(), old(dr).checks@.len() as int, self.constraints()), r.is_ok() ==> final(dr).checks@ == old(dr).checks@ + self.constraints();
}
pub open spec fn w<G: Gad>() -> spec_fn(G) -> Seq<F> { |g: G| g.wires() }
pub open spec fn el<G: Gad>() -> spec_fn(G) -> Seq<F> { |g: G| g.elems() }
pub open spec fn cs<G: Gad>() -> spec_fn(G) -> Seq<int> { |g: G| g.constraints() }
pub open spec fn wp<G: Gad>() -> spec_fn((G, G)) -> Seq<(F, F)> { |p: (G, G)| zip(p.0.wires(), p.1.wires()) }
pub open spec fn pairs<G>(a: Seq<G>, b: Seq<G>) -> Seq<(G, G)> { Seq::new(a.len(), |i: int| (a[i], b[i])) }
pub proof fn zip_split(a: Seq<F>, b: Seq<F>, c: Seq<F>, d: Seq<F>) requires a.len() == c.len(), b.len() == d.len() ensures zip(a + b, c + d) == zip(a, c) + zip(b, d) { assert(zip(a + b, c + d) =~= zip(a, c) + zip(b, d)); }
pub proof fn cat_len<G: Gad>(s: Seq<G>) ensures cat(s, w::<G>()).len() == s.len() * G::width() decreases s.len() {
    if s.len() > 0 { cat_len(s.drop_last()); s.last().fungible(); assert((s.len() - 1) * G::width() + G::width() == s.len() * G::width()) by (nonlinear_arith); } else { assert(0 * G::width() == 0) by (nonlinear_arith); }
}
pub proof fn zip_cat<G: Gad>(a: Seq<G>, b: Seq<G>) requires a.len() == b.len() ensures cat(pairs(a, b), wp::<G>()) == zip(cat(a, w::<G>()), cat(b, w::<G>())) decreases a.len() {
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        zip_cat(x, y); assert(pairs(a, b).drop_last() =~= pairs(x, y)); cat_len(x); cat_len(y); a.last().fungible(); b.last().fungible();
        zip_split(cat(x, w::<G>()), a.last().wires(), cat(y, w::<G>()), b.last().wires());
    } else { assert(cat(pairs(a, b), wp::<G>()) =~= zip(cat(a, w::<G>()), cat(b, w::<G>()))); }
}
#[derive(Copy, Clone)] pub enum Coeff { Zero, One, Two, NegativeOne, Arbitrary(F), NegativeArbitrary(F) }
impl Coeff {
    pub open spec fn val(self) -> F { match self { Coeff::Zero => fzero(), Coeff::One => fone(), Coeff::Two => fadd(fone(), fone()), Coeff::NegativeOne => fneg(fone()), Coeff::Arbitrary(x) => x, Coeff::NegativeArbitrary(x) => fneg(x) } }
    #[verifier::external_body] pub fn value(&self) -> (r: F) ensures r == self.val() { unimplemented!() }
    #[verifier::external_body] pub fn times(self, o: Coeff) -> (r: Coeff) ensures r.val() == fmul(self.val(), o.val()) { unimplemented!() }
}
pub struct DirectSum { pub value: F, pub current_gain: Coeff }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { *self == *o } }
impl DirectSum {
    #[verifier::external_body] pub fn sum_(&self) -> (r: F) ensures r == self.value { unimplemented!() }
}
/// a linear combination, as a function of the empty one
pub struct Lc { pub total: Ghost<F> }
impl Lc { #[verifier::external_body] pub fn of(&self, e: DirectSum) -> (r: DirectSum) requires e.value == fzero(), e.current_gain.val() == fone() ensures r.value == self.total@ { unimplemented!() } }
/// a closure that gives the values of a gate
pub struct Values { pub res: Ghost<Option<(Coeff, Coeff, Coeff, Coeff)>> }
impl Values { #[verifier::external_body] pub fn call(&self) -> (r: Result<(Coeff, Coeff, Coeff, Coeff), Error>) ensures r.is_ok() == self.res@.is_some(), r.is_ok() ==> r->Ok_0 == self.res@.unwrap() { unimplemented!() } }
pub struct Value { pub res: Ghost<Option<Coeff>> }
impl Value { #[verifier::external_body] pub fn call(&self) -> (r: Result<Coeff, Error>) ensures r.is_ok() == self.res@.is_some(), r.is_ok() ==> r->Ok_0 == self.res@.unwrap() { unimplemented!() } }
pub struct Simulator { pub num_allocations: usize, pub num_gates: usize, pub num_constraints: usize }
/// routines
#[derive(Copy)] #[verifier::external_body] pub struct In { x: u64 }
impl Clone for In { #[verifier::external_body] fn clone(&self) -> (r: In) ensures r == *self { *self } }
#[verifier::external_body] pub struct Out { x: u64 }
#[verifier::external_body] pub struct Aux { x: u64 }
pub enum Prediction { Known(Out, Aux), Unknown(Aux) }
impl Prediction { pub open spec fn aux(self) -> Aux { match self { Prediction::Known(_, a) => a, Prediction::Unknown(a) => a } } }
pub struct Routine { pub x: u64 }
pub uninterp spec fn predicted(i: In) -> Option<Prediction>;
pub uninterp spec fn executed(i: In, a: Aux) -> Option<Out>;
/// the same input, without wires
pub uninterp spec fn stripped(i: In) -> In;
pub struct Ro { pub x: u64 }
impl Ro {
    #[verifier::external_body] pub fn predict<D>(&self, dr: &mut D, input: &In) -> (r: Result<Prediction, Error>) ensures r.is_ok() == predicted(*input).is_some(), r.is_ok() ==> r->Ok_0 == predicted(*input).unwrap(), *final(dr) == *old(dr) { unimplemented!() }
    #[verifier::external_body] pub fn execute<D>(&self, dr: &mut D, input: In, aux: Aux) -> (r: Result<Out, Error>) ensures r.is_ok() == executed(input, aux).is_some(), r.is_ok() ==> r->Ok_0 == executed(input, aux).unwrap() { unimplemented!() }
}
"""
FIXED = "pub uninterp spec fn len_() -> nat;\npub struct FixedVec<T> { pub v: Vec<T> }\nimpl<T> FixedVec<T> { pub fn len(&self) -> (r: usize) ensures r == self.v.len() { self.v.len() } }\n#[verifier::external_body] fn declared() -> (r: usize) ensures r == len_() { unimplemented!() }\n"


def each(inv, before="", start="", end=""):
    """Loops over references to the members of one sequence, or of two in step, count an index instead."""

    def one(e):
        e = e.strip()
        e = re.sub(r"\.(iter|into_iter)\(\)$", "", e).lstrip("&").strip()
        if not re.fullmatch(r"\w+(\.\w+)*", e):
            raise Lost(f"`{e}` is not a sequence")
        return e

    def tf(body):
        m = mask(body)
        hs = list(re.finditer(r"\bfor (\w+|\(\w+, \w+\)) in ([^{}]*?)\s*\{", m))
        if len(hs) != 1:
            raise Lost("one loop expected")
        h = hs[0]
        c = close(m, h.end() - 1)
        inner = body[h.end():c]
        z = re.fullmatch(r"(.*?)\s*\.zip\((.*)\)", h[2].strip(), re.S)
        if z and h[1][0] == "(":
            a, b = one(z[1]), one(z[2])
            names = re.findall(r"\w+", h[1])
            head = f"let sa__ = &{a}; let sb__ = &{b}; let mut i__: usize = 0; {before} while i__ < sa__.len() && i__ < sb__.len() {inv} {{ let {names[0]} = &sa__[i__]; let {names[1]} = &sb__[i__];"
        elif not z and h[1][0] != "(":
            head = f"let sa__ = &{one(h[2])}; let mut i__: usize = 0; {before} while i__ < sa__.len() {inv} {{ let {h[1]} = &sa__[i__];"
        else:
            raise Lost("loop not recognised")
        return body[:h.start()] + f"{{ {head} {start} {inner} {end} i__ += 1; }} }}" + body[c + 1:]

    return (tf, each.__doc__)


def collected(body):
    """`x.iter().map(|g| e).try_collect_fixed()` at the end of a function becomes a loop that pushes `e?`."""
    m = re.search(r"(\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| (.*)\)\s*\.try_collect_fixed\(\)\s*$", body, re.S)
    if not m:
        raise Lost("the collected iterator not found")
    return body[:m.start()] + f"let mut result = Vec::new(); for {m[2]} in {m[1]}.iter() {{ result.push({m[3]}?); }} fixed(result)"



TRIVIAL = "ensures r.is_ok(), *final({0}) == *old({0}),"
MAPPED = """requires old(wm).inv(), old(wm).log().len() + ({ws}).len() <= usize::MAX
    ensures r.is_ok() == free(rw::<WM>(), old(wm).log().len() as int, {ws}), r.is_ok() ==> final(wm).inv() && final(wm).frame(old(wm)) && final(wm).log() == old(wm).log() + {ws} && {rs} == image_of::<WM>(old(wm).log().len() as int, {ws}),"""
EQUAL = """ensures r.is_ok() == free(re(), old(dr).eqs@.len() as int, zip({a}, {b})), r.is_ok() ==> final(dr).eqs@ == old(dr).eqs@ + zip({a}, {b}),"""
WRITTEN = """ensures r.is_ok() == free(rb(), old(buf).out@.len() as int, {e}), r.is_ok() ==> final(buf).out@ == old(buf).out@ + {e},"""
CHECKED = """ensures r.is_ok() == free(rc(), old(dr).checks@.len() as int, {c}), r.is_ok() ==> final(dr).checks@ == old(dr).checks@ + {c},"""


def looped(seq, f, rf, log, k):
    """Invariant, and hints before and after the body, of a loop over seq that appends f of each member to log."""
    inv = f"invariant i__ <= sa__.len(), sa__@ == {seq}, {log} == l0_ + cat({seq}.take(i__ as int), {f}), free({rf}, l0_.len() as int, cat({seq}.take(i__ as int), {f})), decreases sa__.len() - i__,"
    start = f"proof {{ step({seq}, {f}, i__ as int, {rf}, l0_.len() as int); }}"
    end = f"proof {{ assert(l0_ + (cat({seq}.take(i__ as int), {f}) + {f}({seq}[i__ as int])) =~= l0_ + cat({seq}.take(i__ as int), {f}) + {f}({seq}[i__ as int])); }}"
    return inv, start, end


def map_loop():
    inv, start, end = looped("this_", "w::<G>()", "rw::<WM>()", "wm.log()", "")
    inv = inv.replace(" decreases", " this_ == ghost_this_, result.len() == i__, cat(result@, w::<G>()) == image_of::<WM>(l0_.len() as int, cat(this_.take(i__ as int), w::<G>())), wm.inv(), wm.frame(&w0_), l0_.len() + cat(this_, w::<G>()).len() <= usize::MAX, decreases").replace(" this_ == ghost_this_,", "")
    start += " let ghost (r1_, w1_) = (result@, *wm); proof { image_split::<WM>(l0_.len() as int, cat(this_.take(i__ as int), w::<G>()), this_[i__ as int].wires()); }"
    end += " proof { pushed(r1_, result@.last(), w::<G>()); assert(result@ =~= r1_.push(result@.last())); wm.framed(&w1_, &w0_); }"
    return each(inv, "proof { wm.framed(wm, wm); assert(cat(this_.take(0), w::<G>()) =~= Seq::empty()); assert(l0_ + Seq::<F>::empty() =~= l0_); assert(cat(result@, w::<G>()) =~= image_of::<WM>(l0_.len() as int, Seq::empty())); }", start, end)


MAP_PRE = "let ghost (this_, l0_, w0_) = ({s}, wm.log(), *wm); proof {{ whole(this_); }}"
MAP_POST = "proof { whole(this_); }"


def fill_loop(seq, f, rf, log, ty):
    inv, start, end = looped("this_", f, rf, log, "")
    return each(inv, f"proof {{ assert(cat(this_.take(0), {f}) =~= Seq::empty()); assert(l0_ + Seq::<{ty}>::empty() =~= l0_); }}", start, end)


EQ_LOOP = each("invariant i__ <= sa__.len(), sa__.len() == sb__.len(), sa__.len() == this_.len(), this_ == pairs(sa__@, sb__@), dr.eqs@ == l0_ + cat(this_.take(i__ as int), wp::<G>()), free(re(), l0_.len() as int, cat(this_.take(i__ as int), wp::<G>())), decreases sa__.len() - i__,",
               "proof { assert(cat(this_.take(0), wp::<G>()) =~= Seq::empty()); assert(l0_ + Seq::<(F, F)>::empty() =~= l0_); }",
               "proof { step(this_, wp::<G>(), i__ as int, re(), l0_.len() as int); }",
               "proof { assert(l0_ + (cat(this_.take(i__ as int), wp::<G>()) + zip(this_[i__ as int].0.wires(), this_[i__ as int].1.wires())) =~= l0_ + cat(this_.take(i__ as int), wp::<G>()) + zip(this_[i__ as int].0.wires(), this_[i__ as int].1.wires())); }")
ARRAY = "#[verifier::external_body] fn exactly<G>(v: Vec<G>, n: usize) -> (r: Result<Vec<G>, Error>) requires v.len() == n ensures r.is_ok(), r->Ok_0 == v { unimplemented!() }\n"

KA = r"unsafe impl<F: Field, G: GadgetKind<F>, const N: usize> GadgetKind<F> for \[PhantomData<G>; N\]"
KP = r"unsafe impl<F: Field, G1: GadgetKind<F>, G2: GadgetKind<F>> GadgetKind<F>"
KB = r"unsafe impl<F: Field, G: GadgetKind<F>> GadgetKind<F> for PhantomData<Box<G>>"
KU = r"unsafe impl<F: Field> GadgetKind<F> for \(\)"
KV = r"unsafe impl<F: Field, G: GadgetKind<F>, L: Len> GadgetKind<F> for FixedVec"
KD = r"unsafe impl<F: Field, G: GadgetKind<F>> GadgetKind<F> for DemotedKind<F, G>"
RES = "-> (r: Result<(), Error>)"
PAIR_MAP = "let ghost (l0_, w0_) = (wm.log(), *wm); let ghost (a_, b_) = (this.0.wires(), this.1.wires()); proof { split(rw::<WM>(), l0_.len() as int, a_, b_); image_split::<WM>(l0_.len() as int, a_, b_); assert(l0_ + a_ + b_ =~= l0_ + (a_ + b_)); }"
FUNCTIONS = [
    dict(name="()::map_gadget", fn="map_gadget", file=FOREIGN, within=KU, title="no wires", sig="fn map_gadget<WM: WireMap>(wm: &mut WM) " + RES, spec=TRIVIAL.format("wm")),
    dict(name="()::enforce_equal_gadget", fn="enforce_equal_gadget", file=FOREIGN, within=KU, title="no equalities", sig="fn enforce_equal_gadget(dr: &mut Dr) " + RES, spec=TRIVIAL.format("dr")),
    dict(name="[G; N]::map_gadget", fn="map_gadget", file=FOREIGN, within=KA, title="every wire of every member, once, in order; refused exactly if a wire is", sig="#[verifier::loop_isolation(false)] fn map_gadget<G: Gad, WM: WireMap, const N: usize>(this: &[G], wm: &mut WM) -> (r: Result<Vec<G>, Error>)",
         spec=MAPPED.format(ws="cat(this@, w::<G>())", rs="cat(r->Ok_0@, w::<G>())").replace("requires ", "requires this.len() == N, ").replace("    ensures ", "    ensures r.is_ok() ==> r->Ok_0.len() == N, "), context=ARRAY, transform=[map_loop()], pre=MAP_PRE.format(s="this@"), post=MAP_POST,
         rewrite=[(r"Vec::with_capacity\(N\)", "Vec::new()", "a capacity"), (r"\.try_into\(\)\s*\.unwrap_or_else\(\|_\| unreachable!\(\"[^\"]*\"\)\)", ".unwrap()", "an array of exactly the members"), (r"Ok\(result\s*\.unwrap\(\)\)", "exactly(result, N)", "an array of exactly the members")]),
    dict(name="[G; N]::enforce_equal_gadget", fn="enforce_equal_gadget", file=FOREIGN, within=KA, title="every pair of wires, in order", sig="#[verifier::loop_isolation(false)] fn enforce_equal_gadget<G: Gad>(dr: &mut Dr, a: &[G], b: &[G]) " + RES, spec="requires a.len() == b.len() " + EQUAL.format(a="cat(a@, w::<G>())", b="cat(b@, w::<G>())"), transform=[EQ_LOOP],
         pre="let ghost (this_, l0_) = (pairs(a@, b@), dr.eqs@); proof { whole(this_); zip_cat(a@, b@); }"),
    dict(name="(G1, G2)::map_gadget", fn="map_gadget", file=FOREIGN, within=KP, title="the wires of the first, then those of the second", sig="fn map_gadget<G1: Gad, G2: Gad, WM: WireMap>(this: &(G1, G2), wm: &mut WM) -> (r: Result<(G1, G2), Error>)",
         spec=MAPPED.format(ws="(this.0.wires() + this.1.wires())", rs="r->Ok_0.0.wires() + r->Ok_0.1.wires()"), pre=PAIR_MAP + " let ghost mut m_ = *wm;", rewrite=[(r"\bOk\(\((.*?), (G2::.*)\)\)\s*$", r"let x__ = \1; proof { m_ = *wm; } let y__ = \2; proof { wm.framed(&m_, &w0_); } Ok((x__, y__))", "the two members are named")]),
    dict(name="(G1, G2)::enforce_equal_gadget", fn="enforce_equal_gadget", file=FOREIGN, within=KP, title="the wires of the first, then those of the second", sig="fn enforce_equal_gadget<G1: Gad, G2: Gad>(dr: &mut Dr, a: &(G1, G2), b: &(G1, G2)) " + RES, spec=EQUAL.format(a="(a.0.wires() + a.1.wires())", b="(b.0.wires() + b.1.wires())"),
         pre="let ghost l0_ = dr.eqs@; proof { a.0.fungible(); b.0.fungible(); a.1.fungible(); b.1.fungible(); let (x, y) = (zip(a.0.wires(), b.0.wires()), zip(a.1.wires(), b.1.wires())); zip_split(a.0.wires(), a.1.wires(), b.0.wires(), b.1.wires()); split(re(), l0_.len() as int, x, y); assert(l0_ + x + y =~= l0_ + (x + y)); }"),
    dict(name="Box<G>::map_gadget", fn="map_gadget", file=FOREIGN, within=KB, title="the wires of its content", sig="fn map_gadget<G: Gad, WM: WireMap>(this: &Box<G>, wm: &mut WM) -> (r: Result<Box<G>, Error>)", spec=MAPPED.format(ws="(**this).wires()", rs="(*r->Ok_0).wires()")),
    dict(name="Box<G>::enforce_equal_gadget", fn="enforce_equal_gadget", file=FOREIGN, within=KB, title="the wires of its content", sig="fn enforce_equal_gadget<G: Gad>(dr: &mut Dr, a: &Box<G>, b: &Box<G>) " + RES, spec=EQUAL.format(a="(**a).wires()", b="(**b).wires()")),
    dict(name="FixedVec::map_gadget", fn="map_gadget", file=VEC, within=KV, title="every wire of every member, once, in order; refused exactly if a wire is", sig="#[verifier::loop_isolation(false)] fn map_gadget<G: Gad, WM: WireMap>(this: &FixedVec<G>, wm: &mut WM) -> (r: Result<FixedVec<G>, Error>)",
         spec=MAPPED.format(ws="cat(this.v@, w::<G>())", rs="cat(r->Ok_0.v@, w::<G>())").replace("requires ", "requires this.v.len() == len_(), "), context=FIXED + "#[verifier::external_body] fn fixed<G>(v: Vec<G>) -> (r: Result<FixedVec<G>, Error>) ensures r.is_ok() == (v.len() == len_()), r.is_ok() ==> r->Ok_0.v == v { unimplemented!() }\n",
         transform=[ASSERTS, (collected, collected.__doc__), map_loop()], rewrite=[(r"L::len\(\)", "declared()", "the declared length"), (r"let sa__ = &this;", "let sa__ = &this.v;", "dereferencing to the members")], pre=MAP_PRE.format(s="this.v@"), post=MAP_POST),
    dict(name="FixedVec::enforce_equal_gadget", fn="enforce_equal_gadget", file=VEC, within=KV, title="every pair of wires, in order", sig="#[verifier::loop_isolation(false)] fn enforce_equal_gadget<G: Gad>(dr: &mut Dr, a: &FixedVec<G>, b: &FixedVec<G>) " + RES, spec="requires a.v.len() == b.v.len() " + EQUAL.format(a="cat(a.v@, w::<G>())", b="cat(b.v@, w::<G>())"), context=FIXED, transform=[EQ_LOOP],
         rewrite=[(r"let sa__ = &(\w+); let sb__ = &(\w+);", r"let sa__ = &\1.v; let sb__ = &\2.v;", "dereferencing to the members")], pre="let ghost (this_, l0_) = (pairs(a.v@, b.v@), dr.eqs@); proof { whole(this_); zip_cat(a.v@, b.v@); }"),
    dict(name="Demoted::map_gadget", fn="map_gadget", file=PROMOTION, within=KD, title="the wires of the demoted gadget", sig="fn map_gadget<G: Gad, WM: WireMap>(this: &Demoted<G>, wm: &mut WM) -> (r: Result<Demoted<G>, Error>)", spec=MAPPED.format(ws="this.gadget.wires()", rs="r->Ok_0.gadget.wires()"),
         context="pub struct Demoted<G> { pub gadget: G }\npub struct Demoter<'a, WM> { pub inner: &'a mut WM }\nimpl<'a, WM: WireMap> WireMap for Demoter<'a, WM> { open spec fn log(&self) -> Seq<F> { self.inner.log() } open spec fn inv(&self) -> bool { self.inner.inv() } #[verifier::prophetic] open spec fn frame(&self, o: &Self) -> bool { self.inner.frame(&*o.inner) && *final(self.inner) == *final(o.inner) } open spec fn image(k: int, w: F) -> F { WM::image(k, w) } open spec fn refused(k: int, w: F) -> bool { WM::refused(k, w) } proof fn framed(&self, b: &Self, c: &Self) { self.inner.framed(&*b.inner, &*c.inner); }\n#[verifier::external_body] fn convert_wire(&mut self, wire: &F) -> (r: Result<F, Error>) { unimplemented!() } }\n"
         "proof fn same_refusals<'a, WM: WireMap + 'a>(k: int, s: Seq<F>) ensures free(rw::<Demoter<'a, WM>>(), k, s) == free(rw::<WM>(), k, s), image_of::<Demoter<'a, WM>>(k, s) == image_of::<WM>(k, s) { let (p, q) = (rw::<Demoter<'a, WM>>(), rw::<WM>()); assert forall|i: int| 0 <= i < s.len() implies p(k + i, #[trigger] s[i]) == q(k + i, s[i]) by {} assert(image_of::<Demoter<'a, WM>>(k, s) =~= image_of::<WM>(k, s)); }\n",
         pre="proof { same_refusals::<WM>(wm.log().len() as int, this.gadget.wires()); }"),
    dict(name="Demoter::convert_wire", fn="convert_wire", file=PROMOTION, within=r"WireMap<F> for Demoter", title="what the underlying map converts it to", sig="impl<'a, WM: WireMap> Demoter<'a, WM> { fn convert_wire(&mut self, wire: &F) -> (r: Result<F, Error>)", suffix="}", context="pub struct Demoter<'a, WM> { pub inner: &'a mut WM }\n",
         spec="requires old(self).inner.inv(), old(self).inner.log().len() < usize::MAX ensures *final(final(self).inner) == *final(old(self).inner), r.is_ok() == !WM::refused(old(self).inner.log().len() as int, *wire), r.is_ok() ==> final(self).inner.inv() && final(self).inner.frame(&*old(self).inner) && final(self).inner.log() == old(self).inner.log().push(*wire) && r->Ok_0 == WM::image(old(self).inner.log().len() as int, *wire),"),
    dict(name="Demoted::enforce_equal_gadget", fn="enforce_equal_gadget", file=PROMOTION, within=KD, title="the wires of the demoted gadgets", sig="fn enforce_equal_gadget<G: Gad>(dr: &mut Dr, a: &Demoted<G>, b: &Demoted<G>) " + RES, spec=EQUAL.format(a="a.gadget.wires()", b="b.gadget.wires()"), context="pub struct Demoted<G> { pub gadget: G }\n"),
    dict(name="()::write_gadget", fn="write_gadget", file=WRITES, within=r"Write<F> for \(\)", title="nothing", sig="fn write_gadget(dr: &mut Dr, buf: &mut Buf) " + RES, spec="ensures r.is_ok(), *final(buf) == *old(buf),"),
    dict(name="[G; N]::write_gadget", fn="write_gadget", file=WRITES, within=r"const N: usize> Write<F>", title="every element of every member, in order", sig="#[verifier::loop_isolation(false)] fn write_gadget<G: Gad>(this: &[G], dr: &mut Dr, buf: &mut Buf) " + RES, spec=WRITTEN.format(e="cat(this@, el::<G>())"), transform=[fill_loop("", "el::<G>()", "rb()", "buf.out@", "F")], pre="let ghost (this_, l0_) = (this@, buf.out@); proof { whole(this_); }"),
    dict(name="(G1, G2)::write_gadget", fn="write_gadget", file=WRITES, within=r"G1: Write<F>, G2: Write<F>> Write<F>", title="the elements of the first, then those of the second", sig="fn write_gadget<G1: Gad, G2: Gad>(this: &(G1, G2), dr: &mut Dr, buf: &mut Buf) " + RES, spec=WRITTEN.format(e="(this.0.elems() + this.1.elems())"),
         pre="let ghost l0_ = buf.out@; let ghost (a_, b_) = (this.0.elems(), this.1.elems()); proof { split(rb(), l0_.len() as int, a_, b_); assert(l0_ + a_ + b_ =~= l0_ + (a_ + b_)); }"),
    dict(name="Box<G>::write_gadget", fn="write_gadget", file=WRITES, within=r"Write<F> for ::core::marker::PhantomData<Box<G>>", title="the elements of its content", sig="fn write_gadget<G: Gad>(this: &Box<G>, dr: &mut Dr, buf: &mut Buf) " + RES, spec=WRITTEN.format(e="(**this).elems()")),
    dict(name="FixedVec::write_gadget", fn="write_gadget", file=VEC, title="every element of every member, in order", sig="#[verifier::loop_isolation(false)] fn write_gadget<G: Gad>(this: &FixedVec<G>, dr: &mut Dr, buf: &mut Buf) " + RES, spec=WRITTEN.format(e="cat(this.v@, el::<G>())"), context=FIXED, transform=[fill_loop("", "el::<G>()", "rb()", "buf.out@", "F")], pre="let ghost (this_, l0_) = (this.v@, buf.out@); proof { whole(this_); }"),
    dict(name="()::enforce_consistent", fn="enforce_consistent", file=CONSISTENT, within=r"Consistent<'dr, D> for \(\)", title="nothing", sig="fn enforce_consistent(dr: &mut Dr) " + RES, spec=TRIVIAL.format("dr")),
    dict(name="[G; N]::enforce_consistent", fn="enforce_consistent", file=CONSISTENT, within=r"const N: usize> Consistent<'dr, D> for \[G; N\]", title="every member, in order", sig="#[verifier::loop_isolation(false)] fn enforce_consistent<G: Gad>(self_: &[G], dr: &mut Dr) " + RES, spec=CHECKED.format(c="cat(self_@, cs::<G>())"), transform=[fill_loop("", "cs::<G>()", "rc()", "dr.checks@", "int")], rewrite=[(r"\bself\b", "self_", "the receiver")],
         pre="let ghost (this_, l0_) = (self_@, dr.checks@); proof { whole(this_); }"),
    dict(name="(G1, G2)::enforce_consistent", fn="enforce_consistent", file=CONSISTENT, within=r"G2: Consistent<'dr, D>> Consistent<'dr, D>", title="the first, then the second", sig="fn enforce_consistent<G1: Gad, G2: Gad>(self_: &(G1, G2), dr: &mut Dr) " + RES, spec=CHECKED.format(c="(self_.0.constraints() + self_.1.constraints())"), rewrite=[(r"\bself\b", "self_", "the receiver")],
         pre="let ghost l0_ = dr.checks@; let ghost (a_, b_) = (self_.0.constraints(), self_.1.constraints()); proof { split(rc(), l0_.len() as int, a_, b_); assert(l0_ + a_ + b_ =~= l0_ + (a_ + b_)); }"),
    dict(name="Box<G>::enforce_consistent", fn="enforce_consistent", file=CONSISTENT, within=r"Consistent<'dr, D> for Box<G>", title="its content", sig="fn enforce_consistent<G: Gad>(self_: &Box<G>, dr: &mut Dr) " + RES, spec=CHECKED.format(c="(**self_).constraints()"), rewrite=[(r"\bself\b", "self_", "the receiver")]),
    dict(name="FixedVec::enforce_consistent", fn="enforce_consistent", file=VEC, title="every member, in order", sig="#[verifier::loop_isolation(false)] fn enforce_consistent<G: Gad>(self_: &FixedVec<G>, dr: &mut Dr) " + RES, spec=CHECKED.format(c="cat(self_.v@, cs::<G>())"), context=FIXED, transform=[fill_loop("", "cs::<G>()", "rc()", "dr.checks@", "int")], rewrite=[(r"let sa__ = &self;", "let sa__ = &self_.v;", "dereferencing to the members")],
         pre="let ghost (this_, l0_) = (self_.v@, dr.checks@); proof { whole(this_); }"),
]
MAP_ANY = """pub struct Counter { pub count: usize, pub log_: Ghost<Seq<F>> }
impl WireMap for Counter { open spec fn log(&self) -> Seq<F> { self.log_@ } open spec fn inv(&self) -> bool { self.count == self.log_@.len() } open spec fn frame(&self, o: &Self) -> bool { true } open spec fn image(k: int, w: F) -> F { fzero() } open spec fn refused(k: int, w: F) -> bool { false } proof fn framed(&self, b: &Self, c: &Self) {}
#[verifier::external_body] fn convert_wire(&mut self, wire: &F) -> (r: Result<F, Error>) { unimplemented!() } }
pub struct WireExtractor { pub wires: Vec<F>, pub x: u8 }
impl WireMap for WireExtractor { open spec fn log(&self) -> Seq<F> { self.wires@ } open spec fn inv(&self) -> bool { true } open spec fn frame(&self, o: &Self) -> bool { true } open spec fn image(k: int, w: F) -> F { fzero() } open spec fn refused(k: int, w: F) -> bool { false } proof fn framed(&self, b: &Self, c: &Self) {}
#[verifier::external_body] fn convert_wire(&mut self, wire: &F) -> (r: Result<F, Error>) { unimplemented!() } }
"""
UNIT_CTX = "pub struct Counter { pub count: usize }\npub struct WireExtractor { pub wires: Vec<F> }\n"
NESTED = (r"(?s)struct \w+<.*?\n        \}\s*\n\s*impl<.*?\n        \}\n", "", "the local map, under its own contract")
SUM = r"impl<F: Field> LinearExpression<F, F> for DirectSum<F>"
SUMOPS = [(r"\bmatch (\w+(?:\.\w+)*) \* (\w+(?:\.\w+)*) \{", r"match \1.times(\2) {", "the product of two coefficients")]
SIM = r"impl<'dr, F: Field> Driver<'dr> for Simulator<F>"
WIRED = r"impl<'dr, F: Field> Driver<'dr> for Emulator<Wired<F>>"
LCREW = [(r"\blc\(DirectSum::default\(\)\)", "lc.of(zero_sum())", "the linear combination, from the empty one"), (r"\blc\.value\(\)", "lc.sum_()", "the sum")]
ZERO_SUM = "#[verifier::external_body] fn zero_sum() -> (r: DirectSum) ensures r.value == fzero(), r.current_gain.val() == fone() { unimplemented!() }\n"
ROUTINE = "ensures ({ let p = predicted(stripped(input)); if p.is_none() { r.is_err() } else { let e = executed(input, p.unwrap().aux()); r.is_ok() == e.is_some() && (r.is_ok() ==> r->Ok_0 == e.unwrap()) } }),"
PREDICT = "#[verifier::external_body] fn predict(routine: &Ro, input: &In) -> (r: Result<Prediction, Error>) ensures r.is_ok() == predicted(stripped(*input)).is_some(), r.is_ok() ==> r->Ok_0 == predicted(stripped(*input)).unwrap() { unimplemented!() }\nimpl Prediction { #[verifier::external_body] pub fn into_aux(self) -> (r: Aux) ensures r == self.aux() { unimplemented!() } }\n"
VALS = [(r"values\(\)\?", "values.call()?", "the closure"), ]
FUNCTIONS += [
    dict(name="Gadget::map", fn="map", file=GADGETS, title="the kind's conversion", sig="fn map<G: Gad, WM: WireMap>(self_: &G, wm: &mut WM) -> (r: Result<G, Error>)", spec=MAPPED.format(ws="self_.wires()", rs="r->Ok_0.wires()"), rewrite=[(r"Self::Kind::", "G::", "the kind"), (r"\bself\b", "self_", "the receiver")]),
    dict(name="Gadget::enforce_equal", fn="enforce_equal", file=GADGETS, title="the kind's equality", sig="fn enforce_equal<G: Gad>(self_: &G, dr: &mut Dr, other: &G) " + RES, spec=EQUAL.format(a="self_.wires()", b="other.wires()"), rewrite=[(r"Self::Kind::enforce_equal_gadget::<D2, D>", "G::enforce_equal_gadget", "the kind"), (r"\bself\b", "self_", "the receiver")]),
    dict(name="Gadget::num_wires", fn="num_wires", file=GADGETS, title="the number of wires", sig="fn num_wires<G: Gad>(self_: &G) -> (r: Result<usize, Error>)", spec="requires self_.wires().len() <= usize::MAX ensures r.is_ok(), r->Ok_0 == self_.wires().len(),", context=MAP_ANY, rewrite=[NESTED, (r"WireCounter::<D> \{", "Counter {", "the local map"), (r"_marker: core::marker::PhantomData,", "log_: Ghost(Seq::empty()),", "a ghost log of the wires"), (r"\bself\.map\(", "G::map_gadget(self_, ", "the contract of the kind")],
         pre="proof { assert(Seq::<F>::empty() + self_.wires() =~= self_.wires()); }"),
    dict(name="WireCounter::convert_wire", fn="convert_wire", file=GADGETS, within=r"WireMap<F> for WireCounter<Src>", title="counts one wire", sig="impl Counter { fn convert_wire(&mut self) " + RES, suffix="}", spec="requires old(self).count < usize::MAX ensures r.is_ok(), final(self).count == old(self).count + 1,", context=UNIT_CTX),
    dict(name="Emulator::wires", fn="wires", file=EMULATOR, title="every wire of the gadget, in order", sig="fn wires<G: Gad>(gadget: &G) -> (r: Result<Vec<F>, Error>)", spec="requires gadget.wires().len() <= usize::MAX ensures r.is_ok(), r->Ok_0@ == gadget.wires(),", context=MAP_ANY, rewrite=[NESTED, (r"WireExtractor \{ wires: Vec::new\(\) \}", "WireExtractor { wires: Vec::new(), x: 0 }", "the local map"), (r"<G::Kind as GadgetKind<F>>::", "G::", "the kind")],
         pre="proof { assert(Seq::<F>::empty() + gadget.wires() =~= gadget.wires()); }"),
    dict(name="WireExtractor::convert_wire", fn="convert_wire", file=EMULATOR, within=r"WireMap<F> for WireExtractor<F>", title="records the wire", sig="impl WireExtractor { fn convert_wire(&mut self, wire: &F) " + RES, suffix="}", spec="ensures r.is_ok(), final(self).wires@ == old(self).wires@.push(*wire),", context=UNIT_CTX),
    dict(name="CloneWires::convert_wire", fn="convert_wire", file=CONVERT, within=r"WireMap<F> for CloneWires<Src, Dst>", title="the same wire", sig="fn convert_wire(wire: &F) -> (r: Result<F, Error>)", spec="ensures r.is_ok(), r->Ok_0 == *wire,"),
    dict(name="StripWires::convert_wire", fn="convert_wire", file=CONVERT, within=r"WireMap<F> for StripWires<D>", title="never refuses", sig="fn convert_wire() " + RES, spec="ensures r.is_ok(),"),
    dict(name="DirectSum::default", fn="default", file=LINEXP, within=r"Default for DirectSum<F>", title="nothing, at gain one", sig="fn default() -> (r: DirectSum)", spec="ensures r.value == fzero(), r.current_gain.val() == fone(),", rewrite=[(r"\bSelf\b", "DirectSum", "the type")]),
    dict(name="DirectSum::value", fn="value", file=LINEXP, within=r"impl<F: Field> DirectSum<F>", title="the sum", sig="impl DirectSum { fn value(&self) -> (r: F)", suffix="}", spec="ensures r == self.value,"),
    dict(name="DirectSum::add_term", fn="add_term", file=LINEXP, within=SUM, title="adds the wire times the coefficient times the gain, whatever their forms", sig="impl DirectSum { fn add_term(self, wire: &F, coeff: Coeff) -> (r: DirectSum)", suffix="}", spec="ensures r.value == fadd(self.value, fmul(*wire, fmul(coeff.val(), self.current_gain.val()))), r.current_gain == self.current_gain,",
         rewrite=SUMOPS + [(r"\bself\b", "self__", "the receiver is mutable")], pre="let mut self__ = self; proof { law::mul_comm(coeff.val(), self.current_gain.val()); let w_ = *wire; law::mul_zero(w_); law::add_zero(self.value); law::mul_one(w_); law::distr(w_, fone(), fone()); law::neg_mul(w_, fone()); assert forall|c: F| fmul(w_, fneg(c)) == fneg(#[trigger] fmul(w_, c)) by { law::neg_mul(w_, c); } }"),
    dict(name="DirectSum::gain", fn="gain", file=LINEXP, within=SUM, title="multiplies the gain and leaves the sum", sig="impl DirectSum { fn gain(self, coeff: Coeff) -> (r: DirectSum)", suffix="}", spec="ensures r.value == self.value, r.current_gain.val() == fmul(self.current_gain.val(), coeff.val()),", rewrite=[(r"(\w+(?:\.\w+)*) \* (\w+(?:\.\w+)*)|\Z", lambda h: f"{h[1]}.times({h[2]})" if h[1] else "", "the product of two coefficients"), (r"\bself\b", "self__", "the receiver is mutable")], pre="let mut self__ = self; proof { law::mul_comm(coeff.val(), self.current_gain.val()); }"),
    dict(name="LinearExpression::add", fn="add", file=LINEXP, within=r"trait LinearExpression", title="a term with coefficient one", sig="impl DirectSum { fn add(self, wire: &F) -> (r: DirectSum)", suffix="}", spec="ensures r.value == fadd(self.value, fmul(*wire, fmul(fone(), self.current_gain.val()))), r.current_gain == self.current_gain,", context="@TERM@"),
    dict(name="LinearExpression::sub", fn="sub", file=LINEXP, within=r"trait LinearExpression", title="a term with coefficient minus one", sig="impl DirectSum { fn sub(self, wire: &F) -> (r: DirectSum)", suffix="}", spec="ensures r.value == fadd(self.value, fmul(*wire, fmul(fneg(fone()), self.current_gain.val()))), r.current_gain == self.current_gain,", context="@TERM@"),
    dict(name="Simulator::new", fn="new", file=SIMULATOR, within=r"impl<F: Field> Simulator<F>", title="nothing counted", sig="fn new() -> (r: Simulator)", spec="ensures r.num_allocations == 0, r.num_gates == 0, r.num_constraints == 0,", rewrite=[(r"_marker: core::marker::PhantomData,", "", "a phantom field")]),
    dict(name="Simulator::reset", fn="reset", file=SIMULATOR, within=r"impl<F: Field> Simulator<F>", title="nothing counted", sig="impl Simulator { fn reset(&mut self)", suffix="}", spec="ensures final(self).num_allocations == 0, final(self).num_gates == 0, final(self).num_constraints == 0,"),
    dict(name="Simulator::gate", fn="gate", file=SIMULATOR, title="accepts exactly if a b = c and c d = 0; the wires carry the values; one more gate", sig="impl Simulator { fn gate(&mut self, values: Values) -> (r: Result<(F, F, F, F), Error>)", suffix="}", rewrite=VALS + [(r"Error::InvalidWitness\(\"[^\"]*\"\.into\(\)\)", "Error {}", "the error")],
         spec="""requires old(self).num_gates < usize::MAX
    ensures r.is_ok() == (values.res@.is_some() && ({ let v = values.res@.unwrap(); fmul(v.0.val(), v.1.val()) == v.2.val() && fmul(v.2.val(), v.3.val()) == fzero() })),
        r.is_ok() ==> ({ let v = values.res@.unwrap(); r->Ok_0 == (v.0.val(), v.1.val(), v.2.val(), v.3.val()) }) && final(self).num_gates == old(self).num_gates + 1 && final(self).num_constraints == old(self).num_constraints && final(self).num_allocations == old(self).num_allocations,"""),
    dict(name="Simulator::alloc", fn="alloc", file=SIMULATOR, within=SIM, title="the value; one more allocation", sig="impl Simulator { fn alloc(&mut self, value: Value) -> (r: Result<F, Error>)", suffix="}", rewrite=[(r"\bvalue\(\)\?", "value.call()?", "the closure")], spec="requires old(self).num_allocations < usize::MAX ensures r.is_ok() == value.res@.is_some(), r.is_ok() ==> r->Ok_0 == value.res@.unwrap().val() && final(self).num_allocations == old(self).num_allocations + 1 && final(self).num_gates == old(self).num_gates && final(self).num_constraints == old(self).num_constraints,"),
    dict(name="Simulator::constant", fn="constant", file=SIMULATOR, within=SIM, title="the coefficient's value", sig="impl Simulator { fn constant(&mut self, value: Coeff) -> (r: F)", suffix="}", spec="ensures r == value.val(), *final(self) == *old(self),"),
    dict(name="Simulator::add", fn="add", file=SIMULATOR, within=SIM, title="the linear combination's value", sig="impl Simulator { fn add(&mut self, lc: Lc) -> (r: F)", suffix="}", spec="ensures r == lc.total@, *final(self) == *old(self),", context=ZERO_SUM, rewrite=LCREW),
    dict(name="Simulator::enforce_zero", fn="enforce_zero", file=SIMULATOR, within=SIM, title="accepts exactly if the linear combination is zero; one more constraint", sig="impl Simulator { fn enforce_zero(&mut self, lc: Lc) -> (r: Result<(), Error>)", suffix="}", context=ZERO_SUM, rewrite=LCREW + [(r"Error::InvalidWitness\(\"[^\"]*\"\.into\(\)\)", "Error {}", "the error")],
         spec="requires old(self).num_constraints < usize::MAX ensures r.is_ok() == (lc.total@ == fzero()), r.is_ok() ==> final(self).num_constraints == old(self).num_constraints + 1 && final(self).num_gates == old(self).num_gates && final(self).num_allocations == old(self).num_allocations,"),
    dict(name="Simulator::routine", fn="routine", file=SIMULATOR, within=SIM, title="executes the routine on the auxiliary data predicted without wires", sig="fn routine(dr_: &mut Dr, routine_: Ro, input: In) -> (r: Result<Out, Error>)", spec=ROUTINE, context=PREDICT, rewrite=[(r"Emulator::predict", "predict", "path"), (r"\bself\b", "dr_", "the receiver"), (r"\broutine\b", "routine_", "a parameter with the function's name")]),
    dict(name="Driver::routine", fn="routine", file=DRIVERS, within=r"trait Driver<'dr>", title="executes the routine on the auxiliary data predicted without wires", sig="fn routine(dr_: &mut Dr, routine_: Ro, input: In) -> (r: Result<Out, Error>)", spec=ROUTINE, context=PREDICT, rewrite=[(r"emulator::Emulator::predict", "predict", "path"), (r"\bself\b", "dr_", "the receiver"), (r"\broutine\b", "routine_", "a parameter with the function's name")]),
    dict(name="Emulator::predict", fn="predict", file=EMULATOR, title="the routine's prediction on the input without its wires", sig="fn predict(routine: &Ro, input: &In) -> (r: Result<Prediction, Error>)", spec="ensures r.is_ok() == predicted(stripped(*input)).is_some(), r.is_ok() ==> r->Ok_0 == predicted(stripped(*input)).unwrap(),", rewrite=[(r"StripWires::remap\(", "strip(", "conversion, under its own contract"), (r"Self::wireless\(\)", "dr()", "a wireless emulator")],
         context="#[verifier::external_body] fn strip(i: &In) -> (r: Result<In, Error>) ensures r.is_ok(), r->Ok_0 == stripped(*i) { unimplemented!() }\n#[verifier::external_body] fn dr() -> Dr { unimplemented!() }\n"),
    dict(name="short_circuit_routine", file=EMULATOR, title="the predicted output if it is known, else the routine's own on the predicted auxiliary data", sig="fn short_circuit_routine(dr: &mut Dr, routine: Ro, input: In) -> (r: Result<Out, Error>)",
         spec="ensures match predicted(input) { None => r.is_err(), Some(Prediction::Known(o, _)) => r.is_ok() && r->Ok_0 == o, Some(Prediction::Unknown(a)) => r.is_ok() == executed(input, a).is_some() && (r.is_ok() ==> r->Ok_0 == executed(input, a).unwrap()) },"),
    dict(name="Prediction::into_aux", fn="into_aux", file=ROUTINES, title="the auxiliary data", sig="impl Prediction { fn into_aux(self) -> (r: Aux)", suffix="}", spec="ensures r == self.aux(),"),
    dict(name="Wired::gate", fn="gate", file=EMULATOR, within=r"impl<F: Field> Mode for Wired<F>", title="the wires carry the values", sig="fn gate(values: Values) -> (r: Result<(F, F, F, F), Error>)", rewrite=VALS, spec="ensures r.is_ok() == values.res@.is_some(), r.is_ok() ==> ({ let v = values.res@.unwrap(); r->Ok_0 == (v.0.val(), v.1.val(), v.2.val(), v.3.val()) }),"),
    dict(name="Emulator<Wired>::constant", fn="constant", file=EMULATOR, within=WIRED, title="the coefficient's value", sig="fn constant(coeff: Coeff) -> (r: F)", spec="ensures r == coeff.val(),"),
    dict(name="Emulator<Wired>::add", fn="add", file=EMULATOR, within=WIRED, title="the linear combination's value", sig="fn add(lc: Lc) -> (r: F)", spec="ensures r == lc.total@,", context=ZERO_SUM, rewrite=LCREW),
    dict(name="Pipe::write", fn="write", file=PIPE, title="writes the element's value, allocated on the destination driver", sig="impl<'a> Pipe<'a> { fn write(&mut self, value: &Element) -> (r: Result<(), Error>)", suffix="}", spec="ensures r.is_ok() ==> final(self).buf.out@ == old(self).buf.out@.push(value.v()), ",
         context="#[verifier::external_body] pub struct Element { x: u64 }\nimpl Element { pub uninterp spec fn v(&self) -> F; #[verifier::external_body] fn taken(&self) -> (r: F) ensures r == self.v() { unimplemented!() } #[verifier::external_body] fn alloc(dr: &mut Dr, v: F) -> (r: Result<Element, Error>) ensures r.is_ok() ==> r->Ok_0.v() == v { unimplemented!() } }\npub struct Pipe<'a> { pub dr: &'a mut Dr, pub buf: Buf }\nimpl Buf { #[verifier::external_body] fn write(&mut self, dr: &mut Dr, e: &Element) -> (r: Result<(), Error>) ensures r.is_ok() ==> final(self).out@ == old(self).out@.push(e.v()) { unimplemented!() } }\n",
         rewrite=[(r"D::just\(\|\| \*value\.value\(\)\.take\(\)\)", "value.taken()", "the value, known"), ]),
]
TERM = "impl DirectSum { #[verifier::external_body] fn add_term(self, wire: &F, coeff: Coeff) -> (r: DirectSum) ensures r.value == fadd(self.value, fmul(*wire, fmul(coeff.val(), self.current_gain.val()))), r.current_gain == self.current_gain { unimplemented!() } }\n"
for f in FUNCTIONS:
    if f.get("context") == "@TERM@":
        f["context"] = TERM
PRELUDE = prelude(SPEC)
