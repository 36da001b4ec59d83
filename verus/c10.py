"""C10, unbounded: measuring, planning and tracing number the same segments and give each its own gates and constraints, whatever the circuit."""
import re

import c08
import c09
from verus import ASSERTS, Lost, mask, split_args

FILE = "crates/ragu_circuits/src/floor_planner.rs"
ASSUME = ["the total number of gates and of constraints of a circuit fits in usize (precondition of the proofs)",
          "circuit code acts on a driver only through the driver's operations; remapping a gadget's wires allocates one wire for each and does nothing else (C17)"]

PLANNER = """#![allow(unused)]
use vstd::prelude::*;
verus! {
pub struct SegmentRecord { pub g: usize, pub c: usize }
impl SegmentRecord {
    pub fn num_gates(&self) -> (r: usize) ensures r == self.g { self.g }
    pub fn num_constraints(&self) -> (r: usize) ensures r == self.c { self.c }
}
pub struct ConstraintSegment { pub gate_start: usize, pub constraint_start: usize, pub num_gates: usize, pub num_constraints: usize }
pub open spec fn gates(s: Seq<SegmentRecord>, k: int) -> int decreases k { if k <= 0 { 0 } else { gates(s, k - 1) + s[k - 1].g } }
pub open spec fn constraints(s: Seq<SegmentRecord>, k: int) -> int decreases k { if k <= 0 { 0 } else { constraints(s, k - 1) + s[k - 1].c } }
pub proof fn monotone(s: Seq<SegmentRecord>, j: int, k: int)
    requires 0 <= j <= k <= s.len()
    ensures gates(s, j) <= gates(s, k), constraints(s, j) <= constraints(s, k)
    decreases k - j
{ if j < k { monotone(s, j, k - 1); } }
pub open spec fn placed(s: Seq<SegmentRecord>, r: Seq<ConstraintSegment>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> {
        &&& (#[trigger] r[i]).gate_start == gates(s, i) && r[i].num_gates == s[i].g
        &&& r[i].constraint_start == constraints(s, i) && r[i].num_constraints == s[i].c
    }
}
/// contiguous: each segment starts where its predecessor ends; disjoint: no two overlap; the first starts at the origin
pub proof fn contiguous_and_disjoint(s: Seq<SegmentRecord>, r: Seq<ConstraintSegment>)
    requires placed(s, r), r.len() == s.len()
    ensures
        r.len() > 0 ==> r[0].gate_start == 0 && r[0].constraint_start == 0,
        forall|i: int| 0 <= i < r.len() - 1 ==> r[i + 1].gate_start == (#[trigger] r[i]).gate_start + r[i].num_gates
            && r[i + 1].constraint_start == r[i].constraint_start + r[i].num_constraints,
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).gate_start + r[i].num_gates <= (#[trigger] r[j]).gate_start
            && r[i].constraint_start + r[i].num_constraints <= r[j].constraint_start,
{
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).gate_start + r[i].num_gates <= (#[trigger] r[j]).gate_start
            && r[i].constraint_start + r[i].num_constraints <= r[j].constraint_start by { monotone(s, i + 1, j); assert(gates(s, i + 1) == gates(s, i) + s[i].g); assert(constraints(s, i + 1) == constraints(s, i) + s[i].c); }
    assert forall|i: int| 0 <= i < r.len() - 1 implies r[i + 1].gate_start == (#[trigger] r[i]).gate_start + r[i].num_gates
            && r[i + 1].constraint_start == r[i].constraint_start + r[i].num_constraints by { assert(gates(s, i + 1) == gates(s, i) + s[i].g); assert(constraints(s, i + 1) == constraints(s, i) + s[i].c); }
}
//@CODE
}
"""

METRICS = "crates/ragu_circuits/src/metrics.rs"
PRELUDE = c08.PRELUDE
LAYOUT = """
/// the layout as every pass builds it: gates and constraints of each segment, the segment being filled, whether a d wire is on offer
pub ghost struct Lay { pub segs: Seq<(int, int)>, pub cur: int, pub paired: bool }
pub open spec fn gate_(l: Lay) -> Lay { Lay { segs: l.segs.update(l.cur, (l.segs[l.cur].0 + 1, l.segs[l.cur].1)), ..l } }
pub open spec fn alloc_(l: Lay) -> Lay { if l.paired { Lay { paired: false, ..l } } else { Lay { paired: true, ..gate_(l) } } }
pub open spec fn constraint_(l: Lay) -> Lay { Lay { segs: l.segs.update(l.cur, (l.segs[l.cur].0, l.segs[l.cur].1 + 1)), ..l } }
/// a routine fills a segment of its own, the next one
pub open spec fn enter_(l: Lay) -> Lay { Lay { segs: l.segs.push((0, 0)), cur: l.segs.len() as int, paired: false } }
/// and its caller goes on where it was
pub open spec fn leave_(l: Lay, inner: Lay) -> Lay { Lay { segs: inner.segs, ..l } }
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T) ensures *final(d) == s, r == *old(d);
"""
COUNTER = c08.COEFFS + c08.OPS + c08.EVALS + c08.SUMS + LAYOUT + """
pub struct Error {}
#[derive(Copy, Clone)]
pub struct RoutineFingerprint { pub input_kind: u64, pub output_kind: u64, pub eval: u64, pub local_num_gates: usize, pub local_num_constraints: usize }
#[derive(Copy, Clone)]
pub enum RoutineIdentity { Root, Routine(RoutineFingerprint) }
#[derive(Copy, Clone)]
pub struct SegmentRecord { pub num_gates: usize, pub num_constraints: usize, pub identity: RoutineIdentity }
pub struct CounterScope { pub available_d: Option<WireEval>, pub current_segment: usize, pub current_a: F, pub current_b: F, pub current_c: F, pub current_d: F, pub current_output: [F; 4], pub result: F }
pub struct Counter { pub scope: CounterScope, pub num_constraints: usize, pub num_gates: usize, pub segments: Vec<SegmentRecord>, pub counting: bool, pub x0: F, pub x1: F, pub x2: F, pub x3: F, pub y: F, pub one: F, pub h: F }
pub open spec fn gates(s: Seq<SegmentRecord>) -> int decreases s.len() { if s.len() == 0 { 0 } else { gates(s.drop_last()) + s.last().num_gates } }
pub open spec fn constraints(s: Seq<SegmentRecord>) -> int decreases s.len() { if s.len() == 0 { 0 } else { constraints(s.drop_last()) + s.last().num_constraints } }
pub proof fn part(s: Seq<SegmentRecord>, i: int) requires 0 <= i < s.len() ensures 0 <= s[i].num_gates <= gates(s), 0 <= s[i].num_constraints <= constraints(s) decreases s.len() {
    if i < s.len() - 1 { part(s.drop_last(), i); } else { nonneg(s.drop_last()); }
}
pub proof fn nonneg(s: Seq<SegmentRecord>) ensures gates(s) >= 0, constraints(s) >= 0 decreases s.len() { if s.len() > 0 { nonneg(s.drop_last()); } }
pub proof fn bump(s: Seq<SegmentRecord>, t: Seq<SegmentRecord>, i: int)
    requires s.len() == t.len(), 0 <= i < s.len(), forall|j: int| 0 <= j < s.len() && j != i ==> (#[trigger] t[j]).num_gates == s[j].num_gates && t[j].num_constraints == s[j].num_constraints
    ensures gates(t) == gates(s) + (t[i].num_gates - s[i].num_gates), constraints(t) == constraints(s) + (t[i].num_constraints - s[i].num_constraints)
    decreases s.len()
{ if i < s.len() - 1 { bump(s.drop_last(), t.drop_last(), i); } else { same_sums(s.drop_last(), t.drop_last()); } }
pub proof fn same_sums(s: Seq<SegmentRecord>, t: Seq<SegmentRecord>)
    requires s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] t[j]).num_gates == s[j].num_gates && t[j].num_constraints == s[j].num_constraints
    ensures gates(t) == gates(s), constraints(t) == constraints(s)
    decreases s.len()
{ if s.len() > 0 { same_sums(s.drop_last(), t.drop_last()); } }
impl CounterScope {
    /// all but the sequences
    pub open spec fn like(&self, o: &CounterScope) -> bool { self.current_segment == o.current_segment && self.result == o.result }
}
impl Counter {
    pub open spec fn inv(&self) -> bool { self.scope.current_segment < self.segments.len() && self.num_gates == gates(self.segments@) && self.num_constraints == constraints(self.segments@) }
    pub open spec fn point(&self, o: &Counter) -> bool { self.x0 == o.x0 && self.x1 == o.x1 && self.x2 == o.x2 && self.x3 == o.x3 && self.y == o.y && self.one == o.one && self.h == o.h }
    pub open spec fn lay(&self) -> Lay { Lay { segs: Seq::new(self.segments.len() as nat, |i: int| (self.segments[i].num_gates as int, self.segments[i].num_constraints as int)), cur: self.scope.current_segment as int, paired: self.scope.available_d is Some } }
    /// nothing has been counted
    pub open spec fn quiet(&self, o: &Counter) -> bool { self.segments == o.segments && self.num_gates == o.num_gates && self.num_constraints == o.num_constraints && self.point(o) }
    /// finished routines keep their identity; a segment being filled keeps its own
    pub open spec fn kept(&self, o: &Counter) -> bool {
        self.point(o) && self.counting == o.counting && self.scope.current_segment == o.scope.current_segment && self.segments.len() >= o.segments.len()
        && (forall|i: int| 0 <= i < o.segments.len() ==> (#[trigger] self.segments[i]).identity == o.segments[i].identity)
        && (forall|i: int| 0 <= i < o.segments.len() && i != o.scope.current_segment ==> #[trigger] self.segments[i] == o.segments[i])
        && forall|i: int| o.segments.len() <= i < self.segments.len() ==> (#[trigger] self.segments[i]).identity is Routine
    }
    pub proof fn update_gate(&self, o: &Counter)
        requires o.inv(), self.segments.len() == o.segments.len(), self.scope.current_segment == o.scope.current_segment, self.num_constraints == o.num_constraints, self.num_gates == o.num_gates + 1,
            forall|i: int| 0 <= i < o.segments.len() && i != o.scope.current_segment ==> #[trigger] self.segments[i] == o.segments[i],
            ({ let (s, t) = (o.segments[o.scope.current_segment as int], self.segments[o.scope.current_segment as int]); t.num_gates == s.num_gates + 1 && t.num_constraints == s.num_constraints })
        ensures self.inv(), self.lay().segs == gate_(o.lay()).segs
    { bump(o.segments@, self.segments@, o.scope.current_segment as int); assert(self.lay().segs =~= gate_(o.lay()).segs); }
    pub proof fn update_constraint(&self, o: &Counter)
        requires o.inv(), self.segments.len() == o.segments.len(), self.scope.current_segment == o.scope.current_segment, self.num_constraints == o.num_constraints + 1, self.num_gates == o.num_gates,
            forall|i: int| 0 <= i < o.segments.len() && i != o.scope.current_segment ==> #[trigger] self.segments[i] == o.segments[i],
            ({ let (s, t) = (o.segments[o.scope.current_segment as int], self.segments[o.scope.current_segment as int]); t.num_gates == s.num_gates && t.num_constraints == s.num_constraints + 1 })
        ensures self.inv(), self.lay().segs == constraint_(o.lay()).segs
    { bump(o.segments@, self.segments@, o.scope.current_segment as int); assert(self.lay().segs =~= constraint_(o.lay()).segs); }
}
pub open spec fn canonical(c: Counter, seg: usize) -> CounterScope { CounterScope { available_d: None, current_segment: seg, current_a: c.x0, current_b: c.x1, current_c: c.x2, current_d: c.x3, current_output: scaled(c), result: c.h } }
pub uninterp spec fn arr(a: F, b: F, c: F, d: F) -> [F; 4];
pub open spec fn scaled(c: Counter) -> [F; 4] { arr(fmul(c.h, c.x0), fmul(c.h, c.x1), fmul(c.h, c.x2), fmul(c.h, c.x3)) }
/// [a, b, c, d].map(|x| h * x)
#[verifier::external_body] fn scale(h: F, a: [F; 4]) -> (r: [F; 4]) ensures r == arr(fmul(h, a@[0]), fmul(h, a@[1]), fmul(h, a@[2]), fmul(h, a@[3])) { unimplemented!() }
"""
PREV = "let ghost o_ = *self;"
COUNTS = "old(self).inv(), old(self).num_gates < usize::MAX"
GATE = """requires %s
    ensures r.is_ok(), final(self).inv(), final(self).kept(old(self)), final(self).scope.like(&old(self).scope), final(self).scope.available_d == old(self).scope.available_d, final(self).scope.current_output == old(self).scope.current_output,
        if old(self).counting { final(self).lay() == gate_(old(self).lay()) } else { final(self).quiet(old(self)) },
        ({ let s = old(self).scope; r->Ok_0 == (WireEval::Value(s.current_a), WireEval::Value(s.current_b), WireEval::Value(s.current_c), WireEval::Value(s.current_d)) }),
        ({ let (s, t) = (old(self).scope, final(self).scope); t.current_a == fmul(s.current_a, old(self).x0) && t.current_b == fmul(s.current_b, old(self).x1) && t.current_c == fmul(s.current_c, old(self).x2) && t.current_d == fmul(s.current_d, old(self).x3) }),""" % COUNTS
ALLOC = """requires %s
    ensures r.is_ok(), final(self).inv(), final(self).kept(old(self)), final(self).scope.like(&old(self).scope), final(self).scope.current_output == old(self).scope.current_output,
        if old(self).counting { final(self).lay() == alloc_(old(self).lay()) } else { final(self).quiet(old(self)) },
        ({ let (s, t) = (old(self).scope, final(self).scope); match s.available_d { Some(w) => r->Ok_0 == w && t.available_d is None, None => r->Ok_0 == WireEval::Value(s.current_b) && t.available_d == Some(WireEval::Value(s.current_d)) } }),""" % COUNTS
GATE_STUB = "impl Counter { #[verifier::external_body] fn gate(&mut self) -> (r: Result<(WireEval, WireEval, WireEval, WireEval), Error>) %s { unimplemented!() } }\n" % GATE
ALLOC_STUB = "impl Counter { #[verifier::external_body] fn alloc(&mut self) -> (r: Result<WireEval, Error>) %s { unimplemented!() } }\n" % ALLOC
NEVER = (r"\(\|\| unreachable!\(\)\)", "()", "the witness closure, which is never called")
SWAP = """ensures ({ let (s, t) = (old(self).scope, *final(self)); true }),"""
UNCOUNTED = """ensures final(self).counting, r.is_ok() ==> final(self).quiet(old(self)) && final(self).scope.like(&old(self).scope) && final(self).scope.current_output == old(self).scope.current_output,"""
RUN = """requires !old(c).counting ensures !final(c).counting, r.is_ok() ==> final(c).quiet(old(c)) && final(c).scope.like(&old(c).scope) && final(c).scope.current_output == old(c).scope.current_output,"""
ROUTINE_CTX = """
/// what the routine's code does between two states, operation by operation, on the wires it was given
pub uninterp spec fn ran(s: Counter, e: Counter) -> bool;
/// where the sequences are once a gadget of this shape has been remapped, and the gadget
#[verifier::external_body] pub struct Gadget { x: u64 }
pub uninterp spec fn remap_scope(s: CounterScope, g: Gadget) -> CounterScope;
impl Counter {
    /// uncounted(|c| map_gadget(&g, c)): one alloc per wire, uncounted
    #[verifier::external_body] fn remap(&mut self, g: &Gadget) -> (r: Result<Gadget, Error>)
        ensures final(self).counting, r.is_ok() ==> final(self).quiet(old(self)) && final(self).scope.like(&old(self).scope) && final(self).scope.current_output == old(self).scope.current_output && final(self).scope == remap_scope(old(self).scope, *g) { unimplemented!() }
    #[verifier::external_body] fn execute(&mut self, input: Gadget) -> (r: Result<Gadget, Error>) requires old(self).inv(), old(self).counting
        ensures r.is_ok() ==> final(self).inv() && final(self).kept(old(self)) && ran(*old(self), *final(self)) { unimplemented!() }
}
#[verifier::external_body] fn predict() -> (r: Result<(), Error>) { unimplemented!() }
pub uninterp spec fn in_kind() -> u64;
pub uninterp spec fn out_kind() -> u64;
pub uninterp spec fn low(x: F) -> u64;
#[verifier::external_body] fn low_u64(x: &F) -> (r: u64) ensures r == low(*x) { unimplemented!() }
#[verifier::external_body] fn input_type() -> (r: u64) ensures r == in_kind() { unimplemented!() }
#[verifier::external_body] fn output_type() -> (r: u64) ensures r == out_kind() { unimplemented!() }
pub open spec fn print(eval: F, g: usize, c: usize) -> RoutineFingerprint { RoutineFingerprint { input_kind: in_kind(), output_kind: out_kind(), eval: low(eval), local_num_gates: g, local_num_constraints: c } }
impl CounterScope { #[verifier::external_body] fn swap_sequences(&mut self) ensures %s { unimplemented!() } }
"""
SWAPPED = """final(self).current_a == old(self).current_output@[0], final(self).current_b == old(self).current_output@[1], final(self).current_c == old(self).current_output@[2], final(self).current_d == old(self).current_output@[3],
        final(self).current_output@ == seq![old(self).current_a, old(self).current_b, old(self).current_c, old(self).current_d], final(self).like(old(self)), final(self).available_d == old(self).available_d,"""


def swaps(body):
    """The mutable borrow of the array's entries is replaced by the entries."""
    h = re.search(r"let \[(\w+), (\w+), (\w+), (\w+)\] = &mut self\.current_output;", body)
    if not h:
        raise Lost("the output sequences not found")
    names = list(h.groups())
    body = body[:h.start()] + body[h.end():]
    return re.sub(r"core::mem::swap\(&mut self\.(\w+), (\w+)\);", lambda g: f"{{ let t__ = self.{g[1]}; self.{g[1]} = self.current_output[{names.index(g[2])}]; self.current_output[{names.index(g[2])}] = t__; }}", body)


def scales(body):
    """`[..].map(|x| h * x)` becomes a call."""
    return re.sub(r"(\[[^\]]*\])\s*\.map\(\|(\w+)\| ([\w.]+) \* \2\)", r"scale(\3, \1)", body)


FUNCTIONS = [
    dict(name="RoutineFingerprint::of", fn="of", file=METRICS, title="types, evaluation and counts: two are equal exactly if all of these are", sig="fn of(eval: F, local_num_gates: usize, local_num_constraints: usize) -> (r: RoutineFingerprint)", context=COUNTER + ROUTINE_CTX % SWAPPED,
         spec="ensures r == print(eval, local_num_gates, local_num_constraints),", rewrite=[(r"ragu_arithmetic::low_u64", "low_u64", "path"), (r"TypeId::of::<Ro::(Input|Output)>\(\)", lambda g: g[1].lower() + "_type()", "the type of the input or output"), (r"\bSelf\b", "RoutineFingerprint", "the type")]),
    dict(name="SegmentRecord::num_gates", fn="num_gates", file=METRICS, title="the segment's gates", sig="impl SegmentRecord { pub fn num_gates(&self) -> (r: usize)", suffix="}", context=COUNTER, spec="ensures r == self.num_gates,"),
    dict(name="SegmentRecord::num_constraints", fn="num_constraints", file=METRICS, title="the segment's constraints", sig="impl SegmentRecord { pub fn num_constraints(&self) -> (r: usize)", suffix="}", context=COUNTER, spec="ensures r == self.num_constraints,"),
    dict(name="Counter::new", fn="new", within=r"> Counter<F>", file=METRICS, title="one empty segment, the root, being filled", sig="impl Counter { fn new() -> (r: Counter)", suffix="}", context=COUNTER + "#[verifier::external_body] fn point(i: u8) -> (r: F) { unimplemented!() }\n",
         spec="ensures r.inv(), r.counting, r.segments.len() == 1, r.segments[0].identity is Root, r.lay() == (Lay { segs: seq![(0, 0)], cur: 0, paired: false }), r.scope == canonical(r, 0),",
         transform=[(scales, scales.__doc__)], rewrite=[(r"let base_state = (?:[^;])*;", "", "the hash that gives the points"), (r"let point = \|index: u8\| \{[^}]*\};", "", "the points, as a function"), (r"alloc::vec!", "vec!", "path"), (r"\bSelf\b", "Counter", "the type")],
         post="proof { assert(r__.segments@.drop_last() =~= Seq::empty()); assert(gates(r__.segments@.drop_last()) == 0 && constraints(r__.segments@.drop_last()) == 0); assert(r__.lay().segs =~= seq![(0int, 0int)]); }"),
    dict(name="Counter::gate", fn="gate", file=METRICS, title="one more gate of the segment being filled, at the next place of each sequence; uncounted ones only move the sequences", sig="impl Counter { fn gate(&mut self) -> (r: Result<(WireEval, WireEval, WireEval, WireEval), Error>)", suffix="}", context=COUNTER, spec=GATE,
         pre=PREV + "proof { part(self.segments@, self.scope.current_segment as int); }", post="proof { if o_.counting { self.update_gate(&o_); } }"),
    dict(name="Counter::alloc", fn="alloc", file=METRICS, title="the d wire on offer, or the b wire of a new gate, whose d is then on offer", sig="impl Counter { fn alloc(&mut self) -> (r: Result<WireEval, Error>)", suffix="}", context=COUNTER + GATE_STUB, spec=ALLOC, rewrite=[NEVER], pre=PREV, post="proof { assert(o_.lay().paired ==> self.lay().segs =~= o_.lay().segs); }"),
    dict(name="Counter::add", fn="add", file=METRICS, title="nothing is counted", sig="impl Counter { fn add(&mut self, lc: &Vec<Op<WireEval>>) -> (r: WireEval)", suffix="}", context=COUNTER, spec="ensures *final(self) == *old(self), r == WireEval::Value(meaning(lc@, evs(old(self).one)).0),", rewrite=[(r"\blc\(", "apply(lc, ", "running the combination")]),
    dict(name="Counter::enforce_zero", fn="enforce_zero", file=METRICS, title="one more constraint of the segment being filled, and one Horner step of its fingerprint", sig="impl Counter { fn enforce_zero(&mut self, lc: &Vec<Op<WireEval>>) -> (r: Result<(), Error>)", suffix="}", context=COUNTER,
         spec="""requires old(self).inv(), old(self).num_constraints < usize::MAX
             ensures r.is_ok(), final(self).inv(), final(self).kept(old(self)), final(self).lay() == constraint_(old(self).lay()), final(self).scope == (CounterScope { result: fadd(fmul(old(self).scope.result, old(self).y), meaning(lc@, evs(old(self).one)).0), ..old(self).scope }),""",
         rewrite=[(r"\blc\(", "apply(lc, ", "running the combination")], pre=PREV + "proof { part(self.segments@, self.scope.current_segment as int); }", post="proof { self.update_constraint(&o_); }"),
    dict(name="CounterScope::swap_sequences", fn="swap_sequences", file=METRICS, title="exchanges the two groups of sequences and nothing else", sig="impl CounterScope { fn swap_sequences(&mut self)", suffix="}", context=COUNTER, spec="ensures " + SWAPPED, transform=[(swaps, swaps.__doc__)],
         post="proof { assert(self.current_output@ =~= seq![o_.current_a, o_.current_b, o_.current_c, o_.current_d]); }", pre=PREV),
    dict(name="Counter::uncounted", fn="uncounted", file=METRICS, title="counting is suspended exactly while the closure runs", sig="impl Counter { fn uncounted(&mut self) -> (r: Result<(), Error>)", suffix="}", context=COUNTER + "#[verifier::external_body] fn run(c: &mut Counter) -> (r: Result<(), Error>) %s { unimplemented!() }\n" % RUN, spec=UNCOUNTED, rewrite=[(r"\bf\(self\)", "run(self)", "the closure")]),
    dict(name="Counter::convert_wire", fn="convert_wire", file=METRICS, title="remapping a wire allocates one", sig="impl Counter { fn convert_wire(&mut self, w: &WireEval) -> (r: Result<WireEval, Error>)", suffix="}", context=COUNTER + ALLOC_STUB, spec=ALLOC, rewrite=[NEVER]),
    dict(name="Counter::routine", fn="routine", file=METRICS, title="a routine fills the next segment, from a starting state that depends on nothing but the shape of its input, and is identified by its own evaluation and counts; its caller's segment, offered wire and evaluation are untouched", sig="impl Counter { fn routine(&mut self, routine: (), input: Gadget) -> (r: Result<Gadget, Error>)", suffix="}",
         context=COUNTER + ROUTINE_CTX % SWAPPED + "impl RoutineFingerprint { #[verifier::external_body] fn of(eval: F, local_num_gates: usize, local_num_constraints: usize) -> (r: RoutineFingerprint) ensures r == print(eval, local_num_gates, local_num_constraints) { unimplemented!() } }\n" + """
pub open spec fn started(o: Counter, b: Counter, g: Gadget) -> bool {
    b.inv() && b.counting && b.point(&o) && b.lay() == enter_(o.lay()) && b.scope == (CounterScope { available_d: None, ..remap_scope(canonical(o, o.segments.len() as usize), g) }) && b.num_gates == o.num_gates && b.num_constraints == o.num_constraints
}
pub open spec fn ended(o: Counter, e: Counter, f: Counter) -> bool {
    let i = o.segments.len() as int;
    f.lay() == leave_(o.lay(), e.lay()) && f.segments.len() == e.segments.len() && (forall|j: int| 0 <= j < f.segments.len() && j != i ==> #[trigger] f.segments[j] == e.segments[j])
    && f.segments[i] == (SegmentRecord { identity: RoutineIdentity::Routine(print(e.scope.result, e.segments[i].num_gates, e.segments[i].num_constraints)), ..e.segments[i] })
}
""",
         spec="""requires old(self).inv(), old(self).counting, old(self).segments.len() < usize::MAX
             ensures r.is_ok() ==> final(self).inv() && final(self).kept(old(self)) && (forall|j: int| 0 <= j < old(self).segments.len() ==> #[trigger] final(self).segments[j] == old(self).segments[j])
                 && final(self).scope.like(&old(self).scope) && final(self).scope.available_d == old(self).scope.available_d && final(self).scope.current_a == old(self).scope.current_a && final(self).scope.current_b == old(self).scope.current_b && final(self).scope.current_c == old(self).scope.current_c && final(self).scope.current_d == old(self).scope.current_d
                 && exists|b: Counter, e: Counter| #[trigger] ran(b, e) && started(*old(self), b, input) && ended(*old(self), e, *final(self)),""",
         transform=[(scales, scales.__doc__)],
         rewrite=[(r"self\.uncounted\(\|(\w+)\| Ro::\w+::map_gadget\((&\w+), \1\)\)", r"self.remap(\2)", "uncounted remapping, by its contract"), (r"Emulator::predict\(&\w+, &\w+\)\?\s*\.into_aux\(\)", "predict()?", "prediction, which sees only values"),
                  (r"\w+\.execute\(self, (\w+), \w+\)\?", r"{ proof { b_ = *self; assert(self.segments@.drop_last() =~= o_.segments@); assert(b_.lay().segs =~= enter_(o_.lay()).segs); } let t__ = self.execute(\1)?; proof { e_ = *self; } t__ }", "the routine's own synthesis"), (r"RoutineFingerprint::of::<F, Ro>", "RoutineFingerprint::of", "generics")],
         pre=PREV + "let ghost mut b_ = *self; let ghost mut e_ = *self;",
         post="""proof { if r__.is_ok() { bump(e_.segments@, self.segments@, o_.segments.len() as int); assert(self.lay().segs =~= e_.lay().segs); assert(ran(b_, e_)); assert(started(o_, b_, input)); assert(ended(o_, e_, *self)); } }"""),
    dict(name="eval_raw", file=METRICS, title="the totals are the sums over the segments, and only the first segment is not a routine's", sig="fn eval_raw() -> (r: Result<CircuitMetrics, Error>)",
         context=COUNTER + """
pub struct CircuitMetrics { pub num_constraints: usize, pub num_gates: usize, pub degree_ky: usize, pub segments: Vec<SegmentRecord> }
pub struct Instance { pub degree_ky: usize }
impl Counter { #[verifier::external_body] fn new() -> (r: Counter) ensures r.inv(), r.counting, r.segments.len() == 1, r.segments[0].identity is Root, r.lay() == (Lay { segs: seq![(0, 0)], cur: 0, paired: false }) { unimplemented!() } }
/// the circuit's operations, each of which keeps the invariant
#[verifier::external_body] fn orchestrate(c: &mut Counter) -> (r: Result<Instance, Error>) requires old(c).inv(), old(c).counting ensures r.is_ok() ==> final(c).inv() && final(c).kept(old(c)) { unimplemented!() }
#[verifier::external_body] fn sum_gates(s: &Vec<SegmentRecord>) -> (r: usize) requires gates(s@) <= usize::MAX ensures r == gates(s@) { unimplemented!() }
#[verifier::external_body] fn sum_constraints(s: &Vec<SegmentRecord>) -> (r: usize) requires constraints(s@) <= usize::MAX ensures r == constraints(s@) { unimplemented!() }
pub open spec fn roots(s: Seq<SegmentRecord>) -> int decreases s.len() { if s.len() == 0 { 0 } else { roots(s.drop_last()) + if s.last().identity is Root { 1int } else { 0 } } }
#[verifier::external_body] fn count_roots(s: &Vec<SegmentRecord>) -> (r: usize) ensures r == roots(s@) { unimplemented!() }
pub proof fn one_root(s: Seq<SegmentRecord>) requires s.len() >= 1, s[0].identity is Root, forall|i: int| 1 <= i < s.len() ==> (#[trigger] s[i]).identity is Routine ensures roots(s) == 1 decreases s.len() {
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(roots(s.drop_last()) == 0); } else { one_root(s.drop_last()); }
}
""",
         spec="""ensures r.is_ok() ==> ({ let m = r->Ok_0; m.num_gates == gates(m.segments@) && m.num_constraints == constraints(m.segments@) && m.segments.len() >= 1 && m.segments[0].identity is Root && forall|i: int| 1 <= i < m.segments.len() ==> (#[trigger] m.segments[i]).identity is Routine }),""",
         rewrite=[(r"Counter::<F>::new\(\)", "Counter::new()", "generics"), (r"super::raw::orchestrate\(&mut (\w+), circuit, Empty\)", r"orchestrate(&mut \1)", "synthesis of the circuit"),
                  (r"(\w+\s*\.segments)\s*\.iter\(\)\s*\.map\(\|(\w+)\| \2\.num_(gates|constraints)\)\s*\.sum\(\)", r"sum_\3(&\1)", "the sum over the segments"),
                  (r"assert_eq!\(\s*(\w+\s*\.segments)\s*\.iter\(\)\s*\.filter\(\|(\w+)\| matches!\(\2\.identity, RoutineIdentity::Root\)\)\s*\.count\(\),\s*1,[^)]*\);", r"{ proof { one_root(\1@); } let n__ = count_roots(&\1); assert(n__ == 1); }", "the run-time assertion becomes a proof obligation"),
                  (r"assert!\(\s*matches!\((\w+\.segments)\[0\]\.identity, RoutineIdentity::Root\),[^)]*\);", r"assert(\1[0].identity is Root);", "the run-time assertion becomes a proof obligation"),
                  (r"assert_eq!\((\w+), (\w+\.\w+)\);", r"assert(\1 == \2);", "the run-time assertion becomes a proof obligation")]),
    dict(
        name="floor_plan", prelude=PLANNER, file=FILE, title="segments are disjoint and contiguous in order from the origin, for any number of segments of any size",
        sig="pub fn floor_plan(segment_records: &[SegmentRecord]) -> (result: Vec<ConstraintSegment>)",
        spec="""requires gates(segment_records@, segment_records.len() as int) <= usize::MAX, constraints(segment_records@, segment_records.len() as int) <= usize::MAX,
            ensures result.len() == segment_records.len(), placed(segment_records@, result@),""",
        rewrite=[
            (r"assert!\(\s*(\w+)\s*\.first\(\)\s*\.is_none_or\(\|(\w+)\| (.*?)\),\s*(?:\"[^\"]*\",?)?\s*\);",
             r"if \1.len() > 0 { let \2 = &\1[0]; assert(\3); }", "the run-time assertion on the first segment becomes a proof obligation"),
        ],
        names={"result": r"let mut (\w+) = Vec::with_capacity", "gs": r"let mut (\w+) = 0usize;\s*let mut \w+ = 0usize;",
               "cs": r"let mut \w+ = 0usize;\s*let mut (\w+) = 0usize;"},
        loops=[dict(inv="""invariant $gs == gates(segment_records@, it0.index() as int), $cs == constraints(segment_records@, it0.index() as int),
                $result.len() == it0.index(), it0.index() <= segment_records.len(), placed(segment_records@, $result@),
                it0.seq().len() == segment_records.len(), forall|k: int| 0 <= k < segment_records.len() ==> *(#[trigger] it0.seq()[k]) == segment_records@[k],
                gates(segment_records@, segment_records.len() as int) <= usize::MAX, constraints(segment_records@, segment_records.len() as int) <= usize::MAX,""",
                    start="""proof { monotone(segment_records@, it0.index() + 1, segment_records.len() as int);
                        assert(gates(segment_records@, it0.index() + 1) == gates(segment_records@, it0.index() as int) + segment_records@[it0.index() as int].g);
                        assert(constraints(segment_records@, it0.index() + 1) == constraints(segment_records@, it0.index() as int) + segment_records@[it0.index() as int].c); }""")],
        post="proof { contiguous_and_disjoint(segment_records@, r__@); }",
    ),
]

# tracing, as far as the layout goes: the same functions as in C09, with contracts that say nothing of values
INV = re.search(r"&& \(self\.state\.available_d matches Some\(i\) ==> .*?fzero\(\)\)\n", c09.SCOPED)[0]
SCOPED = c09.SCOPED.replace(INV, "&& (self.state.available_d matches Some(i) ==> i < self.cur().a.len())\n")
GROWN = "final(self).cur().a.len() == old(self).cur().a.len() + 1"
SPECS = {
    "trace::gate": ("one more gate of the segment being filled", f"requires old(self).inv() ensures final(self).inv() || r.is_err(), r.is_ok() ==> final(self).only(old(self)) && final(self).state.available_d == old(self).state.available_d && {GROWN},"),
    "trace::alloc": ("the d wire on offer, or a new gate whose d is then on offer", f"""requires old(self).inv() ensures final(self).inv() || r.is_err(), r.is_ok() ==> final(self).only(old(self)) && (match old(self).state.available_d {{
            Some(i) => final(self).state.available_d is None && final(self).cur().a.len() == old(self).cur().a.len(), None => final(self).state.available_d is Some && {GROWN} }}),"""),
    "trace::routine body": (None, None), "trace::with_scope": (None, None), "trace::routine": (None, None), "finish": (None, None),
}
for f in c09.FUNCTIONS:
    if f["name"] in SPECS:
        title, spec = SPECS[f["name"]]
        FUNCTIONS.append(dict(f, prelude=c09.PRELUDE, context=f["context"].replace(c09.SCOPED, SCOPED), **(dict(title=title, spec=spec) if spec else {})))
