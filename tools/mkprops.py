import json
P=[]
def p(id,title,statement,over,text,why,files,symbols,docs=None):
    a={"files":files,"mechanism":[{"name":x,"where":files[0]} for x in symbols]}
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
A="crates/ragu_arithmetic/src/"; C="crates/ragu_circuits/src/"; K="crates/ragu_core/src/"; R="crates/ragu_primitives/src/"; D="crates/ragu_pcd/src/"; M="crates/ragu_macros/src/"
p("C01","Wide endomorphism integers compute exact 136-bit arithmetic",
 "The 136-bit unsigned integer type behaves exactly as integers below 2^136: conversion from 64- and 128-bit integers keeps the value, the bitwise operators act bit by bit, left shift is multiplication by a power of two reduced modulo 2^136, right shift is floor division by a power of two, and shifting by the width or more gives zero. No public way of obtaining a value (including random sampling) leaves it outside the 136-bit range, so two values are equal exactly when they are the same number. The debug form prints that number in hexadecimal.",
 ["inputs"],"every pair of 136-bit values and every shift amount the operation accepts",
 "The repository has no test for this type in the stable suite; carry, borrow and cross-limb behaviour depends on bit patterns that sampled values almost never hit.",
 [A+"uendo.rs"],["Uendo"])
p("C02","Optional witness data: absent never runs or leaks, present is transparent",
 "Where witness data is present, every combinator behaves exactly like applying the plain function to the plain value (mapping, chaining, borrowing, cloning, fallible construction, casting a tuple or array position by position). Where witness data is absent, no supplied closure is ever called, no value is produced, and the result is again absent. Casting a tuple or array yields as many parts as it has members, in the same order, each holding the member of its own position.",
 ["inputs","programs"],"every value, every closure, both presence modes, every tuple size and array length supported",
 "Unit tests apply a few concrete closures to a few integers; the law is over all types and values and over every generated tuple size.",
 [K+"maybe/mod.rs",K+"maybe/always.rs",K+"maybe/empty.rs",K+"maybe/cast.rs",M+"proc/maybe_cast.rs"],["Maybe","MaybeKind","Always","Empty","MaybeCast"])
p("C03","Linear-expression coefficients denote field values faithfully",
 "Symbolic coefficients (zero, one, two, minus one, arbitrary, negated arbitrary and similar shortcuts) denote field values, and adding, multiplying, and testing them for zero agrees with doing the same to the denoted values, for every pair of representations. Building a linear combination with added and subtracted terms, scaling gains and nested sub-expressions denotes exactly the weighted sum that was written down, whichever back end evaluates it.",
 ["inputs","programs"],"all field elements, all pairs of coefficient representations, and all sequences of builder calls",
 "Tests use a handful of concrete coefficients; the case table has dozens of representation pairs and any one entry can be wrong only for some of them.",
 [A+"coeff.rs",K+"drivers/linexp.rs"],["Coeff","LinearExpression","DirectSum"])
p("C04","Polynomial helper routines compute what their names say",
 "Evaluating a coefficient sequence, taking inner products, summing a geometric series, dividing by a linear factor and multiplying out a set of roots all equal their textbook definitions over the field for every input length, including empty sequences, zero points and ratio one. Dividing p(X) - p(b) by (X - b), whether eagerly or by the lazily produced highest-degree-first sequence, gives the unique exact quotient, and the eager and lazy forms agree.",
 ["inputs"],"all sequences of all lengths over all field elements",
 "Tests sample random polynomials of a few lengths; degenerate lengths, zero and one points, and parity-dependent branches are hit only for specific inputs.",
 [A+"util.rs"],["eval","dot","geosum","factor","factor_iter","poly_with_roots"])
p("C05","Evaluation domains and FFTs are exact transforms",
 "For every power-of-two domain size, the forward transform of a coefficient vector is the vector of its evaluations at the successive powers of the domain generator, and the inverse transform undoes it exactly; bit reversal is an involution that reverses the low bits. Lagrange interpolation weights at a point sum any degree-bounded polynomial's domain evaluations to its value there, and the routine reports a domain member instead of producing weights when the point lies in the domain.",
 ["inputs","configurations"],"all vectors over all field elements, each domain size, every evaluation point, any thread count",
 "Tests check a few sizes on random data; the guarantee is for all coefficient vectors and every in-domain or out-of-domain point.",
 [A+"fft.rs",A+"domain.rs"],["fft","Ring","Domain","bitreverse"])
p("C06","Multi-scalar multiplication and commitments equal the naive sum",
 "The accelerated multi-scalar multiplication returns the same group element as adding up each base multiplied by its scalar, for every number of terms and every scalar including zero, one, minus one and repeated bases. Committing to a polynomial is the same sum over the corresponding generators, and is therefore additive and compatible with scaling.",
 ["inputs"],"all lists of scalars and bases of every length",
 "Tests compare a few random lists; window and bucket boundaries (carry into a digit, all-zero window, short lists) depend on particular scalar bit patterns and lengths.",
 [A+"util.rs",C+"polynomials/sparse/mod.rs"],["mul","commit"])
p("C07","Sparse structured polynomials equal their dense meaning",
 "A sparsely stored polynomial always denotes one dense coefficient vector: construction from runs, views or coefficients, addition, subtraction, negation, scaling, dilation, folding, evaluation and the reversed inner product all agree with the dense operations on every pattern of gaps and overlaps. Stored blocks never overlap, stay sorted and stay within the declared number of coefficients, and out-of-range construction is refused rather than wrapped or truncated.",
 ["inputs","histories"],"all coefficient values, all block layouts, all sequences of operations",
 "Property tests in the crate sample random layouts at one small rank; block merging, gap tolerance and boundary overlap have many joint cases that sampling leaves open.",
 [C+"polynomials/sparse/mod.rs",C+"polynomials/sparse/view.rs",C+"polynomials/mod.rs",C+"polynomials/txz.rs"],["Polynomial","View","Rank","txz"])
p("C08","All evaluators of a circuit's wiring polynomial agree",
 "The wiring polynomial of a circuit evaluated fully at (x, y), restricted at x and then evaluated at y, and restricted at y and then evaluated at x are the same field element, for every circuit and every x and y including zero. Each linear constraint the circuit enforces contributes with its own power of y, and a circuit that exceeds the gate or constraint capacity is reported as an error by every evaluator instead of wrapping.",
 ["inputs","programs"],"all circuits (any mix of gates, allocations, constraints, nested routines), all evaluation points",
 "Tests compare evaluators on a few fixed circuits at random points; the guarantee is for every circuit shape and for degenerate points.",
 [C+"s/sx.rs",C+"s/sy.rs",C+"s/sxy.rs",C+"s/common.rs"],["s::sx::eval","s::sy::eval","s::sxy::eval"])
p("C09","A trace satisfies the circuit identity exactly when the witness is valid",
 "For every circuit and witness, the assembled trace polynomial together with the wiring polynomial satisfies the reversed-inner-product identity against the circuit's public-input polynomial at every y and z when all gates and linear constraints hold. Changing any constrained wire, or the public inputs, makes the identity fail as a polynomial identity.",
 ["inputs","programs"],"all circuits, all witnesses, all challenge values",
 "Tests draw random challenges for a few circuits; a term placed at the wrong position for one gate kind, or dropped, shows only for circuits that use it.",
 [C+"trace.rs",C+"raw.rs",C+"ky.rs",C+"lib.rs",C+"horner.rs"],["Trace","CircuitExt","ky","assemble"])
p("C10","Layout of routine segments is consistent across all passes",
 "Every pass over the same circuit (measuring, planning, tracing, wiring evaluation) assigns each routine invocation the same disjoint, contiguous range of gates and constraints, in depth-first order, independent of execution order, of witness presence and of whether the routine was predicted or executed. Two routine invocations are treated as identical only if their internal wiring is identical.",
 ["inputs","programs","schedules"],"all circuits with arbitrarily nested routines and all per-segment sizes",
 "Tests cover a few nestings; the plan must match for every tree of routine calls and sizes.",
 [C+"floor_planner.rs",C+"metrics.rs",C+"trace.rs"],["floor_plan","metrics::eval"])
p("C11","The circuit registry interpolates exactly the registered circuits",
 "The registry polynomial restricted to the domain point of an index is exactly that circuit's wiring polynomial plus the registry key term, points of unused indices give only the key term, and the partial evaluations in every order of the three variables agree. An index maps to its own distinct domain point for every index within the registry, whichever the final domain size, and membership of an arbitrary index in the domain is answered correctly.",
 ["inputs","configurations"],"all registries, all circuit indices, all evaluation points",
 "Tests use a handful of registries and random points; index-to-point mapping must be injective and stable for every size.",
 [C+"registry.rs"],["Registry","RegistryBuilder","CircuitIndex"])
p("C12","Stage polynomials and masks confine witnesses to their own gates",
 "A stage's witness polynomial places the stage's values on exactly the gates reserved for that stage, never on an ancestor's or descendant's gates, and its mask accepts a polynomial exactly when every wire outside the reserved range is zero. All evaluation forms of a mask agree with each other and with explicitly enumerating its constraints, for every position and length that fits the capacity, and lengths that do not fit are refused.",
 ["inputs","configurations"],"all stage positions and sizes, all witness values, all evaluation points",
 "Tests cover selected skip/length combinations; the closed-form sums have boundary cases (empty stage, full capacity, zero points).",
 [C+"staging/mask.rs",C+"staging/mod.rs",C+"staging/builder.rs",C+"staging/bonding.rs"],["StageMask","StageExt","StageBuilder"])
p("C13","Boolean and field-element gadgets are complete and sound",
 "For all inputs, each boolean and field-element operation (allocation, logic, selection, arithmetic, inversion, zero test, equality, packing, roots of unity, folding) computes the documented value, and its honest witness satisfies every constraint it emits. Conversely any assignment of the emitted wires that satisfies the constraints forces the output to that value, apart from documented exceptions.",
 ["inputs"],"all field values of inputs and all adversarial assignments of auxiliary wires",
 "Tests run honest provers on a few values; soundness quantifies over all dishonest assignments, which tests never build.",
 [R+"boolean.rs",R+"element.rs",R+"consistent.rs",R+"util.rs"],["Boolean","Element","multipack"])
p("C14","Curve-point gadgets implement the group law and stay on the curve",
 "For all affine points meeting an operation's documented precondition, allocation, negation, the endomorphism, doubling, addition and combined double-and-add return the same point as the elliptic-curve group law, with every emitted constraint satisfied. Any assignment satisfying the constraints forces allocated points onto the curve and forces outputs to the group-law result, and inputs outside the precondition are rejected rather than silently producing another point.",
 ["inputs"],"all pairs of affine points, all adversarial assignments of auxiliary wires",
 "Tests use a few random points; exceptional relations between the two points and dishonest auxiliary wires are not sampled.",
 [R+"point.rs"],["Point"])
p("C15","Endoscalars: in-circuit and native interpretations coincide",
 "For every challenge field element and every endoscalar bit string, the in-circuit extraction, the scalar lift and the group scaling give the same results as their native counterparts, and scaling a point by an endoscalar equals multiplying it by the lifted scalar. The bits of an allocated endoscalar are its little-endian bits, and each bit is constrained to be boolean.",
 ["inputs"],"all endoscalar bit patterns, all field elements, all points",
 "Tests try a few random scalars; bit order, window recombination and the square-root based extraction can be wrong on rare patterns only.",
 [R+"endoscalar.rs",R+"lib.rs"],["Endoscalar","lift_endoscalar","extract_endoscalar"])
p("C16","Poseidon sponge and transcripts follow the specified permutation and order",
 "For every sequence of absorbed elements and squeezes, the in-circuit sponge outputs what the specified permutation (published full/partial round schedule, round constants and matrix) yields under the rate/capacity rule, in order. Saving a state and resuming it is indistinguishable from continuing, saving with nothing absorbed or with outputs pending is refused, and a transcript always starts by binding its length-prefixed tag.",
 ["inputs","histories"],"all field elements and all interleavings of absorb, squeeze, save and resume",
 "Tests sample a few short histories; order and block-boundary behaviour depends on the interleaving.",
 [R+"poseidon.rs",D+"internal/transcript.rs","crates/ragu_pasta/src/poseidon_fp.rs","crates/ragu_pasta/src/poseidon_fq.rs"],["Sponge","SpongeState","Transcript","PoseidonFp","PoseidonFq"])
p("C17","Generated gadget implementations treat every field, in order, exactly once",
 "For every gadget type whose implementation is generated or provided (structs, tuples, arrays, fixed vectors, boxed and unit gadgets), converting it to another driver maps every wire exactly once in declaration order, equality enforcement constrains every wire and nested gadget, cloning preserves wires and witness values, consistency enforcement reaches every nested gadget, and serialization emits every non-skipped field in declaration order. Running the same code on a witness-less, counting, emulating or simulating back end follows the same structure, values are those of the program on each, the simulator accepts exactly the satisfied ones, and a wire that cannot be converted or a vector of another length is reported as an error.",
 ["programs","inputs"],"all struct shapes accepted by the derive macros and all nestings",
 "Unit tests compare generated tokens for a few struct definitions; the property is over all shapes and about run-time behaviour.",
 [M+"derive/gadget.rs",M+"derive/gadgetwrite.rs",M+"derive/consistent.rs",K+"gadgets.rs",K+"gadgets/foreign.rs",K+"convert.rs",K+"drivers/emulator.rs",R+"promotion.rs",R+"io.rs"],["Gadget","GadgetKind","Write","Consistent","WireMap"])
p("C18","Headers encode injectively into their fixed width",
 "Every header is encoded into exactly the configured number (at least one) of field elements as its own serialized elements, then zeros, then its suffix in the last position, and headers that do not fit are refused. Distinct header suffixes always yield distinct suffix elements and never collide with the ones reserved for internal use, fixed-length vectors are only ever created with their declared length, and registering steps out of order or two header types under one suffix is refused.",
 ["inputs","configurations"],"all header gadgets and sizes, all suffix values, all registration orders",
 "Tests use a few headers and small suffix values; arithmetic limits of suffixes and exact-fit sizes are not covered.",
 [D+"header.rs",D+"step/internal/padded.rs",D+"step/encoder.rs",D+"internal/suffix.rs",D+"step/mod.rs",D+"lib.rs",R+"vec.rs"],["Suffix","Padded","Encoded","Index","FixedVec"])
p("C19","Folding many inner-product claims preserves their truth",
 "For any number of claim pairs up to the configured capacity and any challenges, folding the left and right polynomials in two layers and folding the claimed values with the cross terms yields a single claim that equals the reversed inner product of the folded polynomials, missing claims counting as zero. The in-circuit folding computes the same value as the native one, and folding polynomials (or computing cross terms) for more claims than capacity is refused.",
 ["inputs","configurations"],"all claim counts, group sizes, polynomials and challenges",
 "Tests use a few counts and sizes at random points; off-by-one pairing of cross terms must be excluded for every group size.",
 [D+"internal/fold_revdot.rs",C+"horner.rs"],["fold_inner","fold_outer","ClaimFolder","inner_error_terms","outer_error_terms","fold_two_layer"])
p("C20","Verification accepts honest proof-carrying data and rejects altered proofs",
 "Proof-carrying data produced by seeding, fusing or rerandomizing with honest inputs always verifies, and carries the data its step computed. If any stored part of a proof that verification covers (application circuit index, header contents or lengths, trace polynomials, claimed values, folded polynomial or its commitment, registry evaluation) is altered so that one of the proof's claims no longer holds, or the attached data is replaced, verification returns rejection rather than acceptance.",
 ["inputs","histories"],"all proof trees, all single-component alterations, all verifier coins",
 "Tests corrupt a handful of components of the trivial proof; a dropped conjunct or a claim bound to the wrong component is visible only for the particular component.",
 [D+"verify.rs",D+"internal/claims.rs",D+"internal/native/claims.rs",D+"internal/nested/claims.rs",D+"fuse/mod.rs",D+"proof/mod.rs"],["Application::verify","Application::fuse","Application::rerandomize"])
p("C21","Wide integer literals in source become the exact field constants",
 "A literal of up to 256 bits written in any supported radix is turned into exactly four little-endian 64-bit limbs of the same integer, and anything larger is a compile-time error. The field and curve parameters built from such literals (roots of unity, cube roots used by the endomorphisms, generators) satisfy their defining equations.",
 ["inputs","configurations"],"all integers below 2^256, all parameter sets",
 "One test checks a few literals; limb order and zero padding can be wrong for literals with interior or trailing zero limbs only.",
 [M+"proc/repr.rs","crates/ragu_pasta/src/lib.rs"],["repr256","fp","fq","Pasta"])
p("C22","The proof system is knowledge sound and zero knowledge",
 "No efficient adversary produces accepted proof-carrying data for a statement without a valid history, except with negligible probability, and rerandomized proofs reveal nothing beyond the carried data.",
 ["inputs","histories"],"all efficient adversaries, all histories",
 "A probabilistic, computational property over adversaries; no test run can sample an adversary space.",
 [D+"verify.rs",D+"fuse/mod.rs",D+"internal/native/mod.rs"],["Application::verify","Application::rerandomize"])
p("C23","Parallel execution gives the same results as sequential execution",
 "Traces, transforms, multi-scalar multiplications and proofs computed with parallelism enabled are identical to those computed with one thread, for every thread count and interleaving, and no interleaving deadlocks or loses a segment.",
 ["schedules","configurations"],"all thread counts and schedules",
 "Tests run under whatever schedule the machine happens to produce.",
 [A+"multicore.rs",A+"fft.rs",C+"trace.rs"],["multicore","fft","Trace"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
