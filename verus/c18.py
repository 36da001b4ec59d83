"""C18, unbounded: what a header is written as, fixed-length vectors, indices and registration."""
import re

from field import prelude
from verus import ASSERTS, CHAINS, Lost, close, mask, split_args, unbrace

PADDED = "crates/ragu_pcd/src/step/internal/padded.rs"
ENCODER = "crates/ragu_pcd/src/step/encoder.rs"
ADAPTER = "crates/ragu_pcd/src/step/internal/adapter.rs"
STEP = "crates/ragu_pcd/src/step/mod.rs"
HEADER = "crates/ragu_pcd/src/header.rs"
SUFFIX = "crates/ragu_pcd/src/internal/suffix.rs"
LIB = "crates/ragu_pcd/src/lib.rs"
VEC = "crates/ragu_primitives/src/vec.rs"

ASSUME = [
    "a gadget's Write implementation passes its elements to the buffer one by one and propagates its errors (C17 for the generated ones); the buffers below the padding (vectors, Pipe) do not refuse",
    "F::from(u64) is injective below 2^64 (the modulus is larger)",
    "Element::{constant, zero} hold that value (C13); emulators compute the values of the program (C17)",
    "HEADER_SIZE is at least one and 3 * HEADER_SIZE fits a word",
]

SPEC = """
global size_of usize == 8;
#[verifier::external_body] fn refuse_unless(c: bool) ensures c { assert!(c) }
pub struct Dr { pub x: u64 }
pub struct Error {}
/// an element of a driver: what matters is its value
#[verifier::external_body] pub struct Element { x: u64 }
impl Element {
    pub uninterp spec fn val(&self) -> F;
    #[verifier::external_body] pub fn constant(dr: &mut Dr, v: F) -> (r: Element) ensures r.val() == v { unimplemented!() }
    #[verifier::external_body] pub fn zero(dr: &mut Dr) -> (r: Element) ensures r.val() == fzero() { unimplemented!() }
}
pub open spec fn vals(s: Seq<Element>) -> Seq<F> { Seq::new(s.len(), |i: int| s[i].val()) }
pub open spec fn zeros(n: nat) -> Seq<F> { Seq::new(n, |i: int| fzero()) }
pub uninterp spec fn from_u64(v: u64) -> F;
pub axiom fn from_injective(a: u64, b: u64) requires from_u64(a) == from_u64(b) ensures a == b;
impl F { #[verifier::external_body] pub fn from(v: u64) -> (r: F) ensures r == from_u64(v) { unimplemented!() } }
/// a buffer that does not refuse
#[verifier::external_body] pub struct Buf { x: u64 }
impl Buf {
    pub uninterp spec fn out(&self) -> Seq<F>;
    #[verifier::external_body] pub fn write(&mut self, dr: &mut Dr, e: &Element) -> (r: Result<(), Error>) ensures r.is_ok(), final(self).out() == old(self).out().push(e.val()) { unimplemented!() }
}
/// an encoded header: its own elements, zeros, its suffix
pub open spec fn encoding(items: Seq<F>, suffix: F, h: nat) -> Seq<F> { items + zeros((h - 1 - items.len()) as nat) + seq![suffix] }
pub proof fn encoding_len(items: Seq<F>, suffix: F, h: nat) requires items.len() <= h - 1 ensures encoding(items, suffix, h).len() == h, encoding(items, suffix, h)[h - 1] == suffix, encoding(items, suffix, h).take(items.len() as int) == items {
    assert(encoding(items, suffix, h).take(items.len() as int) =~= items);
}
/// C18: one header type (one number of elements): equal encodings come from equal elements
pub proof fn injective(a: Seq<F>, b: Seq<F>, s: F, t: F, h: nat) requires a.len() == b.len() <= h - 1, encoding(a, s, h) == encoding(b, t, h) ensures a == b, s == t { encoding_len(a, s, h); encoding_len(b, t, h); }
"""
COUNTING = """
pub struct CountingBuffer<'a, const HEADER_SIZE: usize> { pub written: usize, pub inner: &'a mut Buf }
"""
COUNTING_WRITE = """requires HEADER_SIZE >= 1, old(self).written < usize::MAX,
    ensures *final(final(self).inner) == *final(old(self).inner), r.is_ok() == (old(self).written < HEADER_SIZE - 1),
        r.is_ok() ==> final(self).written == old(self).written + 1 && final(self).inner.out() == old(self).inner.out().push(value.val()),
        r.is_err() ==> final(self).written == old(self).written && final(self).inner.out() == old(self).inner.out(),"""
GADGET = """
/// a header's gadget: the elements it is written as
#[verifier::external_body] pub struct Gadget { x: u64 }
pub uninterp spec fn items(g: Gadget) -> Seq<F>;
"""
CONTENT = GADGET + COUNTING + """
impl<'a, const HEADER_SIZE: usize> CountingBuffer<'a, HEADER_SIZE> { #[verifier::external_body] pub fn write(&mut self, dr: &mut Dr, value: &Element) -> (r: Result<(), Error>) """ + COUNTING_WRITE + """ { unimplemented!() } }
impl Gadget {
    /// one call of the buffer's write per element, in order, up to the first refusal
    #[verifier::external_body] pub fn write<'a, const HEADER_SIZE: usize>(&self, dr: &mut Dr, buf: &mut CountingBuffer<'a, HEADER_SIZE>) -> (r: Result<(), Error>)
        requires HEADER_SIZE >= 1, old(buf).written <= HEADER_SIZE - 1
        ensures *final(final(buf).inner) == *final(old(buf).inner), r.is_ok() == (old(buf).written + items(*self).len() <= HEADER_SIZE - 1),
            r.is_ok() ==> final(buf).written == old(buf).written + items(*self).len() && final(buf).inner.out() == old(buf).inner.out() + items(*self) { unimplemented!() }
}
impl Element {
    #[verifier::external_body] pub fn write<'a, const HEADER_SIZE: usize>(&self, dr: &mut Dr, buf: &mut CountingBuffer<'a, HEADER_SIZE>) -> (r: Result<(), Error>)
        requires HEADER_SIZE >= 1, old(buf).written < usize::MAX
        ensures *final(final(buf).inner) == *final(old(buf).inner), r.is_ok() == (old(buf).written < HEADER_SIZE - 1),
            r.is_ok() ==> final(buf).written == old(buf).written + 1 && final(buf).inner.out() == old(buf).inner.out().push(self.val()) { unimplemented!() }
}
pub struct PaddedContent { pub gadget: Gadget }
"""
FORHEADER = GADGET + """
pub struct PaddedContent { pub gadget: Gadget }
pub struct WithSuffix { pub inner: PaddedContent, pub suffix: Element }
pub struct Padded { pub inner: WithSuffix }
pub struct Suffix { pub x: u64 }
pub uninterp spec fn suffix_of() -> u64;
impl Suffix { #[verifier::external_body] pub fn get(&self) -> (r: u64) ensures r == suffix_of() { unimplemented!() } }
#[verifier::external_body] pub fn header_suffix() -> Suffix { unimplemented!() }
"""
VECS = """
pub enum VecError { VectorLengthMismatch { expected: usize, actual: usize } }
/// the declared length
pub uninterp spec fn len_() -> usize;
pub struct L {}
impl L { #[verifier::external_body] pub fn len() -> (r: usize) ensures r == len_() { unimplemented!() } }
pub struct FixedVec<T> { pub v: Vec<T> }
impl<T> FixedVec<T> { pub open spec fn good(&self) -> bool { self.v.len() == len_() } }
"""
TRYFROM = "requires true ensures r.is_ok() == (v.len() == len_()), r.is_ok() ==> r->Ok_0.v@ == v@ && r->Ok_0.good(), r.is_err() ==> r->Err_0 == (VecError::VectorLengthMismatch { expected: len_(), actual: v.len() })"
TRYFROM_STUB = "#[verifier::external_body] pub fn try_from(v: Vec<T>) -> (r: Result<FixedVec<T>, VecError>) " + TRYFROM + " { unimplemented!() }"
FIXED = r"impl<T, L: Len> FixedVec<T, L>"
FN = """
/// what the closure returns for an index
pub uninterp spec fn made(i: int) -> u64;
pub uninterp spec fn fails(i: int) -> bool;
"""


def phantom(body):
    return re.sub(r"\s*_marker: PhantomData,", "", body)


PHANTOM = (phantom, "PhantomData fields are dropped")


ENC = GADGET + """
pub open spec fn buf_ok(a: Seq<Element>, b: Seq<Element>, e: Seq<F>) -> bool { vals(b) == vals(a) + e }
pub uninterp spec fn suffix_of() -> u64;
pub open spec fn coded(g: Gadget, h: nat) -> Seq<F> { encoding(items(g), from_u64(suffix_of()), h) }
#[verifier::external_body] pub struct Padded { x: u64 }
pub uninterp spec fn content(p: Padded) -> Gadget;
#[verifier::external_body] fn for_header<const HEADER_SIZE: usize>(dr: &mut Dr, gadget: Gadget) -> (r: Result<Padded, Error>) ensures r.is_ok(), content(r->Ok_0) == gadget { unimplemented!() }
pub struct Fixed { pub v: Vec<Element> }
impl Fixed {
    /// FixedVec::into_inner
    #[verifier::external_body] pub fn into_inner(self) -> (r: Vec<Element>) ensures r@ == self.v@ { unimplemented!() }
}
pub enum EncodedInner { Gadget(Gadget), Uniform(Fixed) }
pub struct Encoded(pub EncodedInner);
pub uninterp spec fn hs() -> usize;
pub open spec fn written_as(e: Encoded, h: nat) -> Seq<F> { match e.0 { EncodedInner::Gadget(g) => coded(g, h), EncodedInner::Uniform(f) => vals(f.v@) } }
/// whether it fits
pub open spec fn fits(e: Encoded, h: nat) -> bool { match e.0 { EncodedInner::Gadget(g) => items(g).len() <= h - 1, EncodedInner::Uniform(f) => f.v.len() == h } }
#[verifier::external_body] fn extend(buf: &mut Vec<Element>, o: Vec<Element>) ensures final(buf)@ == old(buf)@ + o@ { unimplemented!() }
"""


def adapter_cut(body):
    """the closure that computes the auxiliary data is inlined; what it returns does not depend on the driver"""
    h = re.search(r"D::try_just\(", mask(body))
    if not h:
        raise Lost("try_just not found")
    parts, c = split_args(body, h.end() - 1)
    if len(parts) != 1 or not parts[0].startswith("||"):
        raise Lost("try_just of something other than a closure")
    t = re.match(r"\s*\?", body[c + 1:])
    if not t:
        raise Lost("result of try_just not propagated")
    inner = unbrace(parts[0][2:])
    inner, n = re.subn(r"Ok\((.*)\)\s*$", r"\1", inner, flags=re.S)
    if n != 1:
        raise Lost("closure does not end in Ok")
    return body[:h.start()] + "{ " + inner + " }" + body[c + 1 + t.end():]


ADAPT = """
#[verifier::external_body] pub struct Enc { x: u64 }
pub uninterp spec fn code(e: Enc) -> Seq<F>;
impl Enc {
    /// Encoded::write: refused, or its HEADER_SIZE elements
    #[verifier::external_body] pub fn write(self, dr: &mut Dr, buf: &mut Vec<Element>) -> (r: Result<(), Error>) ensures r.is_ok() ==> vals(final(buf)@) == vals(old(buf)@) + code(self) && code(self).len() == hs() { unimplemented!() }
}
pub uninterp spec fn hs() -> usize;
#[verifier::external_body] pub struct Data { x: u64 }
#[verifier::external_body] pub struct Step { x: u64 }
pub uninterp spec fn step_result(s: Step, w: Data, l: Data, r: Data) -> ((Enc, Enc, Enc), Data, Data);
impl Step { #[verifier::external_body] pub fn witness(&self, dr: &mut Dr, witness: Data, left: Data, right: Data) -> (r: Result<((Enc, Enc, Enc), Data, Data), Error>) ensures r.is_ok() ==> r->Ok_0 == step_result(*self, witness, left, right) { unimplemented!() } }
impl Data { #[verifier::external_body] pub fn take(self) -> (r: Data) ensures r == self { unimplemented!() } }
pub struct Adapter { pub step: Step }
#[verifier::external_body] fn values(e: &Vec<Element>, a: usize, b: usize) -> (r: Vec<F>) requires a <= b <= e.len() ensures r@ == vals(e@).subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] fn fixed_h(v: Vec<F>) -> (r: Result<Vec<F>, Error>) ensures r.is_ok() == (v.len() == hs()), r.is_ok() ==> r->Ok_0@ == v@ { unimplemented!() }
#[verifier::external_body] fn fixed_3h(v: Vec<Element>) -> (r: Result<Vec<Element>, Error>) ensures r.is_ok() == (v.len() == 3 * hs()), r.is_ok() ==> r->Ok_0@ == v@ { unimplemented!() }
pub open spec fn codes(t: ((Enc, Enc, Enc), Data, Data)) -> Seq<F> { code(t.0.0) + code(t.0.1) + code(t.0.2) }
"""
INDEX = """
#[derive(Clone, Copy)] pub enum InternalStepIndex { Rerandomize, Trivial }
impl InternalStepIndex { pub open spec fn pos(self) -> nat { match self { InternalStepIndex::Rerandomize => 0, InternalStepIndex::Trivial => 1 } } #[verifier::external_body] fn as_u32(self) -> (r: u32) ensures r == self.pos() { self as u32 } }
#[derive(Clone, Copy)] pub enum StepIndex { Internal(InternalStepIndex), Application(usize) }
#[derive(Clone, Copy)] pub struct Index { pub index: StepIndex }
pub struct CircuitIndex(pub u32);
impl CircuitIndex { #[verifier::external_body] pub fn new(i: usize) -> (r: CircuitIndex) ensures i <= u32::MAX, r.0 == i { unimplemented!() } pub fn from_u32(i: u32) -> (r: CircuitIndex) ensures r.0 == i { CircuitIndex(i) } }
pub uninterp spec fn nint() -> nat;
#[verifier::external_body] const fn ni_() -> (r: usize) ensures r == nint(), r <= 0x1000 { 0 }
pub exec const NUM_INTERNAL_CIRCUITS: usize ensures NUM_INTERNAL_CIRCUITS == nint(), NUM_INTERNAL_CIRCUITS <= 0x1000 { ni_() }
"""
REGISTER = """
#[derive(Clone, Copy)] pub struct Suffix { pub s: (bool, usize) }
pub struct TypeId { pub t: u64 }
impl TypeId { pub fn ne_(&self, o: TypeId) -> (r: bool) ensures r == (self.t != o.t) { self.t != o.t } }
/// a header type: its suffix and its identity
pub struct HeaderType { pub suffix: Suffix, pub id: u64 }
#[verifier::external_body] pub struct BTreeMap { x: u64 }
impl BTreeMap {
    pub uninterp spec fn view(&self) -> Map<Suffix, TypeId>;
    #[verifier::external_body] pub fn get(&self, k: &Suffix) -> (r: Option<&TypeId>) ensures r.is_some() == self@.contains_key(*k), r.is_some() ==> *r.unwrap() == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Suffix, v: TypeId) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
/// a suffix clashes with another header type
pub open spec fn clash(m: Map<Suffix, TypeId>, h: HeaderType) -> bool { m.contains_key(h.suffix) && m[h.suffix].t != h.id }
pub open spec fn noted(m: Map<Suffix, TypeId>, h: HeaderType) -> Map<Suffix, TypeId> { if m.contains_key(h.suffix) { m } else { m.insert(h.suffix, TypeId { t: h.id }) } }
#[verifier::external_body] pub struct Registry { x: u64 }
#[verifier::external_body] pub struct Adapter { x: u64 }
pub uninterp spec fn steps(r: Registry) -> Seq<Adapter>;
pub uninterp spec fn refused(a: Adapter) -> bool;
impl Registry { #[verifier::external_body] pub fn register_circuit(self, a: Adapter) -> (r: Result<Registry, Error>) ensures r.is_ok() == !refused(a), r.is_ok() ==> steps(r->Ok_0) == steps(self).push(a) { unimplemented!() } }
pub struct StepType { pub adapter: Adapter, pub index: usize, pub left: HeaderType, pub right: HeaderType, pub output: HeaderType }
impl StepType { #[verifier::external_body] pub fn assert_index(&self, e: usize) -> (r: Result<(), Error>) ensures r.is_ok() == (self.index == e) { unimplemented!() }
  #[verifier::external_body] pub fn adapter(self) -> (r: Adapter) ensures r == self.adapter { unimplemented!() } }
pub struct ApplicationBuilder { pub native_registry: Registry, pub num_application_steps: usize, pub header_map: BTreeMap }
"""
PRELUDE = prelude(SPEC)
H = "<const HEADER_SIZE: usize>"
FUNCTIONS = [
    dict(name="CountingBuffer::write", fn="write", file=PADDED, within=r"Buffer<'dr, D> for CountingBuffer<'_, B, HEADER_SIZE>", title="passes on exactly what leaves room for the suffix, and refuses the rest",
         sig="impl<'a, const HEADER_SIZE: usize> CountingBuffer<'a, HEADER_SIZE> { pub fn write(&mut self, dr: &mut Dr, value: &Element) -> (r: Result<(), Error>)", spec=COUNTING_WRITE, suffix="}", context=COUNTING,
         rewrite=[(r"ragu_core::Error::MalformedEncoding\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", "Error {}", "the message of the error")]),
    dict(name="PaddedContent::write_gadget", fn="write_gadget", file=PADDED, title="the header's elements, then zeros, one short of the size; refused exactly if they do not fit",
         sig=f"pub fn write_gadget{H}(this: &PaddedContent, dr: &mut Dr, buf: &mut Buf) -> (r: Result<(), Error>)",
         spec="""requires HEADER_SIZE >= 1, ensures r.is_ok() == (items(this.gadget).len() <= HEADER_SIZE - 1),
             r.is_ok() ==> final(buf).out() == old(buf).out() + items(this.gadget) + zeros((HEADER_SIZE - 1 - items(this.gadget).len()) as nat),""",
         context=CONTENT, rewrite=[(r"CountingBuffer::<B, HEADER_SIZE>", "CountingBuffer::<HEADER_SIZE>", "the buffer type")], names={"c": r"let mut (\w+) = CountingBuffer"},
         pre="let ghost b0_ = buf.out(); let ghost fb_ = *final(buf); let ghost n_ = items(this.gadget).len();",
         loops=[dict(inv="""invariant HEADER_SIZE >= 1, n_ == items(this.gadget).len(), n_ <= $c.written <= HEADER_SIZE - 1, *final($c.inner) == fb_, $c.inner.out() == b0_ + items(this.gadget) + zeros(($c.written - n_) as nat),
                         decreases HEADER_SIZE - $c.written,""",
                     before="proof { assert($c.inner.out() =~= b0_ + items(this.gadget) + zeros(0)); }",
                     start="let ghost w_ = $c.written;",
                     end="proof { assert(zeros(($c.written - n_) as nat) =~= zeros((w_ - n_) as nat).push(fzero())); assert($c.inner.out() =~= b0_ + items(this.gadget) + zeros(($c.written - n_) as nat)); }")]),
    dict(name="WithSuffix::write_gadget", fn="write_gadget", file=SUFFIX, title="the content, then the suffix", sig="pub fn write_gadget(this: &WithSuffix, dr: &mut Dr, buf: &mut Buf) -> (r: Result<(), Error>)",
         spec="ensures r.is_ok() == fits(this.inner), r.is_ok() ==> final(buf).out() == old(buf).out() + content(this.inner) + seq![this.suffix.val()],",
         context="""#[verifier::external_body] pub struct Inner { x: u64 } pub uninterp spec fn content(i: Inner) -> Seq<F>; pub uninterp spec fn fits(i: Inner) -> bool; pub struct WithSuffix { pub inner: Inner, pub suffix: Element }
             #[verifier::external_body] fn inner_write(i: &Inner, dr: &mut Dr, buf: &mut Buf) -> (r: Result<(), Error>) ensures r.is_ok() == fits(*i), r.is_ok() ==> final(buf).out() == old(buf).out() + content(*i) { unimplemented!() }""",
         rewrite=[(r"K::write_gadget", "inner_write", "the content's own write")], post="proof { if r__.is_ok() { assert(buf.out() =~= old(buf).out() + content(this.inner) + seq![this.suffix.val()]); } }"),
    dict(name="WithSuffix::new", fn="new", file=SUFFIX, title="the two parts", sig="impl WithSuffix { pub fn new(inner: PaddedContent, suffix: Element) -> (r: WithSuffix)", spec="ensures r.inner == inner, r.suffix == suffix,", suffix="}", context=FORHEADER),
    dict(name="for_header", file=PADDED, title="the header's own elements under its own suffix", sig=f"pub fn for_header{H}(dr: &mut Dr, gadget: Gadget) -> (r: Result<Padded, Error>)",
         spec="ensures r.is_ok(), r->Ok_0.inner.inner.gadget == gadget, r->Ok_0.inner.suffix.val() == from_u64(suffix_of()),",
         context=FORHEADER + "impl WithSuffix { #[verifier::external_body] pub fn new(inner: PaddedContent, suffix: Element) -> (r: WithSuffix) ensures r.inner == inner, r.suffix == suffix { unimplemented!() } }",
         rewrite=[(r"D::F::from", "F::from", "the field"), (r"H::SUFFIX", "header_suffix()", "the suffix of the header")]),
    dict(name="Encoded::write", fn="write", file=ENCODER, title="appends exactly the encoding of the header; refused exactly if it does not fit", sig=f"impl Encoded {{ pub fn write{H}(self, dr: &mut Dr, buf: &mut Vec<Element>) -> (r: Result<(), Error>)",
         spec="""requires HEADER_SIZE >= 1, self.0 is Uniform ==> fits(self, HEADER_SIZE as nat)
             ensures r.is_ok() == fits(self, HEADER_SIZE as nat), r.is_ok() ==> vals(final(buf)@) == vals(old(buf)@) + written_as(self, HEADER_SIZE as nat), r.is_ok() ==> written_as(self, HEADER_SIZE as nat).len() == HEADER_SIZE,""", suffix="}",
         context=ENC + """impl Padded {
             #[verifier::external_body] pub fn write<const N: usize>(&self, dr: &mut Dr, buf: &mut Vec<Element>) -> (r: Result<(), Error>) requires N >= 1
                 ensures r.is_ok() == (items(content(*self)).len() <= N - 1), r.is_ok() ==> vals(final(buf)@) == vals(old(buf)@) + coded(content(*self), N as nat) { unimplemented!() } }""",
         rewrite=[(r"padded::for_header::<H, HEADER_SIZE, _>", "for_header::<HEADER_SIZE>", "path"), (r"\?\s*\.write\(dr, buf\)\?", "?.write::<HEADER_SIZE>(dr, buf)?", "the size of the encoding"), (r"(\w+)\.extend\(", r"extend(\1, ", "Vec::extend")],
         pre="let ghost self__ = self;",
         post="""proof { if r__.is_ok() { match self__.0 { EncodedInner::Gadget(g) => { encoding_len(items(g), from_u64(suffix_of()), HEADER_SIZE as nat); } EncodedInner::Uniform(f) => { assert(vals(buf@) =~= vals(old(buf)@) + vals(f.v@)); } } } }"""),
    dict(name="Encoded::new_uniform", fn="new_uniform", file=ENCODER, title="the same encoding, computed on an emulator and allocated", sig=f"impl Encoded {{ pub fn new_uniform{H}(dr: &mut Dr, witness: Data) -> (r: Result<Encoded, Error>)",
         spec="requires HEADER_SIZE >= 1, HEADER_SIZE == hs(), ensures r.is_ok() == (encodes(witness).is_some() && items(encodes(witness).unwrap()).len() <= HEADER_SIZE - 1), r.is_ok() ==> written_as(r->Ok_0, HEADER_SIZE as nat) == coded(encodes(witness).unwrap(), HEADER_SIZE as nat) && fits(r->Ok_0, HEADER_SIZE as nat),", suffix="}",
         context=ENC + """
#[verifier::external_body] pub struct Data { x: u64 }
pub uninterp spec fn encodes(d: Data) -> Option<Gadget>;
#[verifier::external_body] fn encode(dr: &mut Dr, w: Data) -> (r: Result<Gadget, Error>) ensures r.is_ok() == encodes(w).is_some(), r.is_ok() ==> r->Ok_0 == encodes(w).unwrap() { unimplemented!() }
#[verifier::external_body] fn wireless() -> Dr { unimplemented!() }
impl Padded {
    /// through Pipe: each value is allocated on the other driver
    #[verifier::external_body] pub fn pipe<const N: usize>(&self, em: &mut Dr, dr: &mut Dr, raw: &mut Vec<Element>) -> (r: Result<(), Error>) requires N >= 1
        ensures r.is_ok() == (items(content(*self)).len() <= N - 1), r.is_ok() ==> vals(final(raw)@) == vals(old(raw)@) + coded(content(*self), N as nat) { unimplemented!() } }
impl Fixed { #[verifier::external_body] pub fn try_from(v: Vec<Element>) -> (r: Result<Fixed, Error>) ensures r.is_ok() == (v.len() == hs()), r.is_ok() ==> r->Ok_0.v@ == v@ { unimplemented!() } }
""", rewrite=[(r"let mut (\w+): Emulator<Wireless<D::MaybeKind, _>> = Emulator::wireless\(\)", r"let mut \1 = wireless()", "the emulator"), (r"H::encode", "encode", "the header's encode"),
              (r"padded::for_header::<H, HEADER_SIZE, _>", "for_header::<HEADER_SIZE>", "path"), (r"(\w+)\.write\(&mut (\w+), &mut Pipe::new\((\w+), &mut (\w+)\)\)", r"\1.pipe::<HEADER_SIZE>(&mut \2, \3, &mut \4)", "Pipe"),
              (r"FixedVec::try_from", "Fixed::try_from", "the vector of HEADER_SIZE elements")],
         names={"raw": r"let mut (\w+) = Vec::with_capacity"},
         pre="proof { if encodes(witness).is_some() && items(encodes(witness).unwrap()).len() <= HEADER_SIZE - 1 { encoding_len(items(encodes(witness).unwrap()), from_u64(suffix_of()), HEADER_SIZE as nat); let c = coded(encodes(witness).unwrap(), HEADER_SIZE as nat); assert(vals(Seq::<Element>::empty()) + c =~= c); assert forall|s: Seq<Element>| vals(s) == c implies #[trigger] s.len() == HEADER_SIZE by { assert(vals(s).len() == s.len()); } } }"),
    dict(name="Adapter::witness", fn="witness", file=ADAPTER, title="the output is the encodings of left, right and output; the headers handed on are the first two",
         sig=f"impl Adapter {{ pub fn witness{H}(&self, dr: &mut Dr, witness: (Data, Data, Data)) -> (r: Result<(Vec<Element>, ((Vec<F>, Vec<F>), Data, Data)), Error>)",
         spec="""requires HEADER_SIZE == hs(), 3 * HEADER_SIZE <= usize::MAX,
             ensures r.is_ok() ==> ({ let t = step_result(self.step, witness.2, witness.0, witness.1); let (o, x) = r->Ok_0; vals(o@) == codes(t) && o.len() == 3 * HEADER_SIZE && x.0.0@ == code(t.0.0) && x.0.1@ == code(t.0.1) && x.1 == t.1 && x.2 == t.2 }),""", suffix="}", context=ADAPT,
         transform=[(adapter_cut, adapter_cut.__doc__)],
         rewrite=[(r"witness\.cast\(\)", "witness", "a witness of three is three witnesses"), (r"\.witness::<_, HEADER_SIZE>", ".witness", "generics"), (r"Vec::with_capacity\([^)]*\)", "Vec::<Element>::new()", "capacity"),
                  (r"(\w+)\[([^\]]*?)\.\.([^\]]*)\]\s*\.iter\(\)\s*\.map\(\|(\w+)\| \*\4\.value\(\)\.take\(\)\)\s*\.collect_fixed\(\)\?", r"{ proof { assert(vals(\1@).len() == \1.len()); assert(vals(\1@).subrange(\2 as int, \3 as int).len() == \3 - \2); } fixed_h(values(&\1, \2, \3))? }", "the values of a range of elements"),
                  (r"WithAux::new\(", "(", "a pair"), (r"FixedVec::try_from\(", "fixed_3h(", "the vector of 3 HEADER_SIZE elements")],
         post="""proof { if r__.is_ok() { let t = step_result(self.step, witness.2, witness.0, witness.1); let (o, x) = r__->Ok_0; let e = vals(o@);
             assert(vals(Seq::<Element>::empty()) =~= Seq::empty()); assert(e =~= codes(t)); assert(e.len() == o.len());
             assert(codes(t).subrange(0, HEADER_SIZE as int) =~= code(t.0.0)); assert(codes(t).subrange(HEADER_SIZE as int, 2 * HEADER_SIZE) =~= code(t.0.1)); } }"""),
    dict(name="FixedVec::try_from", fn="try_from", file=VEC, within=r"impl<T, L: Len> TryFrom<Vec<T>> for FixedVec<T, L>", title="created exactly from vectors of the declared length; others are refused with both lengths", sig="impl<T> FixedVec<T> { pub fn try_from(v: Vec<T>) -> (r: Result<FixedVec<T>, VecError>)",
         spec=TRYFROM + ",", suffix="}", context=VECS, transform=[PHANTOM], rewrite=[(r"Error::V", "VecError::V", "the error type"), (r"v\.shrink_to_fit\(\);", "", "capacity")]),
    dict(name="FixedVec::new", fn="new", file=VEC, within=FIXED, title="created exactly from vectors of the declared length", sig="impl<T> FixedVec<T> { pub fn new(v: Vec<T>) -> (r: Result<FixedVec<T>, VecError>)",
         spec=TRYFROM + ",", suffix=TRYFROM_STUB + "}", context=VECS),
    dict(name="FixedVec::into_inner", fn="into_inner", file=VEC, within=FIXED, title="the elements", sig="impl<T> FixedVec<T> { pub fn into_inner(self) -> (r: Vec<T>)", spec="ensures r@ == self.v@, r.len() == len_(),", suffix="}", context=VECS, transform=[ASSERTS],
         rewrite=[(r"self\.len\(\)", "self.v.len()", "Deref")]),
    dict(name="FixedVec::clone", fn="clone", file=VEC, within=r"impl<T: Clone, L: Len> Clone for FixedVec<T, L>", title="the same elements", sig="impl FixedVec<F> { pub fn clone_(&self) -> (r: FixedVec<F>)", spec="ensures r.v@ == self.v@, r.good(),", suffix="}", context=VECS + "#[verifier::external_body] fn copy_of(v: &Vec<F>) -> (r: Vec<F>) ensures r@ == v@ { v.clone() }", transform=[ASSERTS, PHANTOM],
         rewrite=[(r"self\.len\(\)", "self.v.len()", "Deref"), (r"self\.v\.clone\(\)", "copy_of(&self.v)", "Vec::clone")]),
    dict(name="FixedVec::write_gadget", fn="write_gadget", file=VEC, title="every element once, in order", sig="pub fn write_gadget(this: &FixedVec<Element>, dr: &mut Dr, buf: &mut Buf) -> (r: Result<(), Error>)",
         spec="ensures r.is_ok(), final(buf).out() == old(buf).out() + vals(this.v@),", context=VECS + "#[verifier::external_body] fn item_write(i: &Element, dr: &mut Dr, buf: &mut Buf) -> (r: Result<(), Error>) ensures r.is_ok(), final(buf).out() == old(buf).out().push(i.val()) { unimplemented!() }",
         rewrite=[(r"G::write_gadget", "item_write", "the element's own write")], pre="let ghost b0_ = buf.out();",
         loops=[dict(inv="invariant it0.seq().len() == this.v.len(), forall|k: int| 0 <= k < this.v.len() ==> *(#[trigger] it0.seq()[k]) == this.v[k], buf.out() == b0_ + vals(this.v@.take(it0.index() as int)),",
                     before="proof { assert(b0_ =~= b0_ + vals(this.v@.take(0))); }",
                     start="let ghost k_ = it0.index(); let ghost o_ = buf.out();", end="proof { assert(vals(this.v@.take(k_ + 1)) =~= vals(this.v@.take(k_ as int)).push(this.v[k_ as int].val())); assert(buf.out() =~= b0_ + vals(this.v@.take(k_ + 1))); }",
                     after="proof { assert(this.v@.take(this.v.len() as int) =~= this.v@); }")]),
    dict(name="Index::assert_index", fn="assert_index", file=STEP, title="accepts exactly the next application index", sig="impl Index { pub fn assert_index(&self, expect_id: usize) -> (r: Result<(), Error>)",
         spec="ensures self.index is Application, r.is_ok() == (self.index == StepIndex::Application(expect_id)),", suffix="}", context=INDEX + "#[verifier::external_body] fn never<T>() -> (r: T) ensures false { panic!() }",
         rewrite=[(r"ragu_core::Error::Initialization\([^()]*(?:\([^()]*\)[^()]*)*\)", "Error {}", "the message of the error"), (r"panic!\([^()]*\)", "never()", "refusal")]),
    dict(name="Index::circuit_index", fn="circuit_index", file=STEP, title="internal steps follow the internal circuits, application steps the internal steps; unregistered steps are refused", sig="impl Index { pub fn circuit_index(&self, num_application_steps: usize) -> (r: Result<CircuitIndex, Error>)",
         spec="""requires num_application_steps <= 0x7fff_ffff
             ensures r.is_ok() == (self.index is Internal || self.index->Application_0 < num_application_steps),
                 r.is_ok() ==> r->Ok_0.0 as int == (match self.index { StepIndex::Internal(i) => (nint() + i.pos()) as int, StepIndex::Application(i) => nint() + 2 + i }),""", suffix="}", context=INDEX + "pub const NUM_INTERNAL_STEPS: usize = 2;",
         rewrite=[(r"ragu_core::Error::Initialization\([^()]*(?:\([^()]*\)[^()]*)*\)", "Error {}", "the message of the error"), (r"\bi as u32", "i.as_u32()", "the discriminant")]),
    dict(name="Index::new", fn="new", file=STEP, within=r"impl Index", title="an application index", sig="impl Index { pub fn new(value: usize) -> (r: Index)", spec="ensures r.index == StepIndex::Application(value),", suffix="}", context=INDEX),
    dict(name="Index::internal", fn="internal", file=STEP, within=r"impl Index", title="an internal index", sig="impl Index { pub fn internal(value: InternalStepIndex) -> (r: Index)", spec="ensures r.index == StepIndex::Internal(value),", suffix="}", context=INDEX),
    dict(name="prevent_duplicate_suffixes", file=LIB, title="a suffix belongs to one header type", sig="impl ApplicationBuilder { pub fn prevent_duplicate_suffixes(&mut self, h: &HeaderType) -> (r: Result<(), Error>)",
         spec="""ensures r.is_ok() == !clash(old(self).header_map@, *h), r.is_ok() ==> final(self).header_map@ == noted(old(self).header_map@, *h), final(self).native_registry == old(self).native_registry, final(self).num_application_steps == old(self).num_application_steps,""", suffix="}", context=REGISTER,
         rewrite=[(r"Error::Initialization\([^()]*(?:\([^()]*\)[^()]*)*\)", "Error {}", "the message of the error"), (r"&H::SUFFIX", "&h.suffix", "the suffix of the header"), (r"\bH::SUFFIX", "h.suffix", "the suffix of the header"),
                  (r"TypeId::of::<H>\(\)", "TypeId { t: h.id }", "the type of the header"), (r"\*(\w+) != (TypeId \{[^}]*\})", r"\1.ne_(\2)", "comparison of types")]),
    dict(name="ApplicationBuilder::register", fn="register", file=LIB, title="refused exactly if out of order, under a suffix of another header type, or by the registry; otherwise the step is appended", sig="impl ApplicationBuilder { pub fn register(self, step: StepType) -> (r: Result<ApplicationBuilder, Error>)",
         spec="""requires self.num_application_steps < usize::MAX
             ensures ({ let m = self.header_map@; let m1 = noted(m, step.output); let m2 = noted(m1, step.left);
                 r.is_ok() == (step.index == self.num_application_steps && !clash(m, step.output) && !clash(m1, step.left) && !clash(m2, step.right) && !refused(step.adapter))
                 && (r.is_ok() ==> r->Ok_0.header_map@ == noted(m2, step.right) && steps(r->Ok_0.native_registry) == steps(self.native_registry).push(step.adapter) && r->Ok_0.num_application_steps == self.num_application_steps + 1) }),""",
         suffix="""#[verifier::external_body] pub fn prevent_duplicate_suffixes(&mut self, h: &HeaderType) -> (r: Result<(), Error>) ensures r.is_ok() == !clash(old(self).header_map@, *h), r.is_ok() ==> final(self).header_map@ == noted(old(self).header_map@, *h), final(self).native_registry == old(self).native_registry, final(self).num_application_steps == old(self).num_application_steps { unimplemented!() } }""",
         context=REGISTER, pre="let mut s__ = self;",
         rewrite=[(r"\bself\b", "s__", "the builder taken by value"), (r"S::INDEX\.", "step.", "the index of the step"), (r"prevent_duplicate_suffixes::<S::(\w+)>\(\)", lambda g: f"prevent_duplicate_suffixes(&step.{g[1].lower()})", "the header type"),
                  (r"Adapter::<C, S, R, HEADER_SIZE>::new\(step\)", "step.adapter()", "the circuit of the step")]),
]
