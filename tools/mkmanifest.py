"""Writes MANIFEST.json from the table below."""
import json
SYM = "contracts on the real gadget code discharged by symbolic execution over a symbolic field with an ideal-membership prover"
CHECKS = {
 "C01": ("Kani function contracts (CBMC), full-domain", "proof", "Every operator and constructor of the 136-bit integer is proved against its arithmetic meaning for all inputs and all shift amounts; loops are bounded by the limb count with unwinding assertions on. Trusted: Kani/CBMC and rustc."),
 "C02": ("Kani function contracts (CBMC), full-domain", "proof", "Every combinator and every generated tuple cast (2..32) is proved for all values; array casts for listed lengths. Generic types are verified at representative instantiations (parametricity assumed)."),
 "C03": (SYM, "proof", "Coefficient arithmetic is proved for every pair of representations and symbolic values; expression builders are proved inductively over every builder state. Trusted: prover, stand-in field trait, rustc."),
 "C04": ("Verus contracts with loop invariants on extracted bodies (unbounded); symbolic execution of the real functions for the rest", "proof", "Evaluation, inner product, geometric sum and both forms of division are proved for every length, point and ratio on bodies copied from /repo over an abstract field. Bounded remainder: multiplying out roots (listed lengths, all values) and the iterator plumbing dropped by the extraction (listed lengths). Trusted: Verus, Z3, the extraction, the field laws."),
 "C05": ("Verus contracts on the extracted bodies (unbounded); Kani on the extracted bit reversal; symbolic execution over symbolic roots of unity", "proof", "The transform (recursion and parallel splitting) equals the naive sum for every size, module, root of unity and thread count; forward and inverse undo each other; domains, halving, membership and Lagrange weights are proved for every size, all on bodies copied from /repo. Assumed: modules satisfy the module laws, the field constants are roots of unity (C21), join runs both closures. Symbolic execution of the real functions through their real types at listed sizes (bounded)."),
 "C06": ("Verus contracts with loop invariants on the extracted multiplication (unbounded), Kani on the extracted digit extraction, symbolic execution for commitments", "proof", "The bucket method is proved equal to the naive sum for any number of terms over an abstract group, given the digit contract, which Kani proves for all 256-bit scalars and the bucket widths in use. Bounded remainder: commitments of polynomials and batch normalisation (symbolic values, listed shapes)."),
 "C21": (SYM, "proof", "The literal parser of /repo is executed against an independent big-integer oracle, and the defining equations of every constant are evaluated (ground), including the baked-in parameters, regenerated from their definition."),
 "C13": (SYM, "proof", "Each gadget function of /repo is executed unmodified over a symbolic field and driver; the postcondition (honest value, completeness of every emitted constraint, soundness for every adversarial assignment) is discharged by polynomial ideal membership for all field elements. Functions over vectors are instantiated at listed lengths (labelled bounded). Trusted: the prover in harness/symf, the stand-in field of stubs/, rustc."),
 "C14": (SYM, "proof", "As C13; curve identities (group law, doubling, endomorphism) are proved over the curve equation for all points."),
 "C15": (SYM, "proof", "Soundness of allocation, lift, extraction and the group-scaling constraints is proved for all adversarial assignments; honest values are sampled over bit patterns (bounded), and scalar multiplication agreement is explored concretely (bounded)."),
 "C16": (SYM, "proof", "The permutation is proved against the published schedule for an arbitrary symbolic state, honest and adversarial; round constants and matrix are regenerated from the Grain LFSR and compared (ground evaluation); sponge histories up to a stated length (bounded)."),
 "C07": ("Verus contracts with loop invariants on the extracted operations (unbounded block layouts); symbolic execution of the real code for the rest", "proof", "Construction from vectors and views, merging (addition, subtraction), scaling, negation, dilation, folding, evaluation, reversed inner product and both iteration directions are proved against the dense meaning for every block layout at any capacity, on bodies copied from /repo. Bounded remainder: commitments and the iterator plumbing dropped by the extraction (symbolic values, listed layouts). Trusted: Verus, Z3, the extraction, the field laws."),
 "C08": ("Verus contracts on the extracted bodies (unbounded) of all three evaluators; symbolic execution of whole programs for the composition", "proof", "Every operation of the three evaluators (gates, allocation, addition, constraints, routines, the evaluation functions), the reference-counted table of virtual wires and coefficient arithmetic are proved on bodies copied from /repo, for every rank, point, plan and history of operations. Assumed: RefCell hands out the one table, Rust drops each handle once, combinations are built only through the expression methods, reference counts do not overflow. Whole programs are compared symbolically (bounded in program shape, unbounded in values)."),
 "C09": ("Verus contracts on the extracted trace, synthesis and t-polynomial code (unbounded) with the identity as a lemma over them; symbolic execution of whole programs for the composition", "proof", "Every operation that records a trace, its assembly by the floor plan, the polynomial t in all four forms, the order of constraints and public outputs, and k(y) are proved on bodies copied from /repo for every rank, circuit and point; over these contracts the identity is proved to be exactly gate errors plus linear constraints, and to vanish as a polynomial in z exactly for a valid trace. Assumed: threads deliver their segments, sort sorts, circuit code acts only through driver operations. Whole programs are executed symbolically (bounded in shape)."),
 "C10": ("Verus contracts on the extracted measuring, planning and tracing code (unbounded); contracts on all passes discharged by symbolic execution", "proof", "The measuring driver is proved, operation by operation, to build the layout of one abstract machine (a routine fills the next segment, from a starting state that depends only on the shape of its input; its caller's segment and pairing are untouched) with totals equal to the sums over segments; the planner lays any number of segments out disjointly and contiguously; tracing follows the same machine, inline or deferred, and orders segments depth first; the evaluators' segments are proved in C08. A fingerprint is exactly types, evaluation and counts (that unequal wiring evaluates differently is probabilistic). Whole programs with nested routines are compared across passes under every prediction choice and thread count listed (bounded in shape)."),
 "C11": ("Verus contracts on the extracted registry code (unbounded), with agreement of all evaluation orders as their postconditions; symbolic execution of registries for the composition", "proof", "Index points, the order of indices, the refusal of too many circuits, the lookup and every evaluation of the registry polynomial, inside and outside the domain and in every order, are proved on bodies copied from /repo for every number of circuits, index, point and key. Assumed: circuits evaluate one polynomial each (C08), polynomial arithmetic (C07), transforms and weights (C05); lookup keys separate points (ground check of every index below 2^16 in both fields). Registries are also executed symbolically (bounded in number and shape)."),
 "C17": ("Verus contracts on the provided gadget, write, consistency and wire-conversion code, the simulator, the emulators and linear sums (unbounded); contracts on derived gadget code, executed on a label-recording driver (parametric in the driver)", "exploration", "Proved on bodies copied from /repo, for every length, nested gadget and value: unit, array, pair, boxed, fixed-vector and demoted gadgets convert every wire once in order (refused exactly if a wire is), enforce every equality, write every element and reach every consistency check; wire counting and extraction; the simulator accepts exactly satisfied gates and constraints; linear sums; routines on emulators. Not proved for all shapes, hence the level: derived implementations are run on a driver whose wires are opaque distinct labels, which determines them for all drivers and assignments, over the listed catalogue of struct shapes."),
 "C18": ("Kani function contracts on header.rs in place; Verus contracts on the extracted encoding, vector, index and registration code (unbounded); symbolic execution of encodings and exploration of registration sequences", "proof", "Suffix elements are distinct and not reserved for every usize (Kani). The encoding of a header is proved to be its elements, zeros and its suffix for every header and size, refused exactly when it does not fit, hence injective; the step adapter's output, fixed-length vectors, step indices and registration (order, suffix clashes) are proved on bodies copied from /repo for every input and history. Assumed: a gadget's Write passes its elements to the buffer in order (C17), u64 embeds injectively into the field. Encodings are also run on symbolic values and registration sequences explored (bounded)."),
 "C19": ("Verus contracts on the extracted folding code (unbounded); symbolic execution of the real code at listed shapes", "proof", "Two-layer folding, cross terms, folded claims (native and in circuit) and Horner accumulation are proved for every number of claims and every capacity on bodies copied from /repo. Assumed: element operations compute what C13 proves, polynomial operations what C07 proves. Symbolic execution of the real generic code at listed shapes including the deployed one (bounded)."),
 "C20": ("Verus contracts on the extracted verifier and claim builder (unbounded); contracts on claim construction by symbolic execution and ground evaluation; histories and single-fault alterations executed on the real verifier", "proof", "For every proof, data, header length and random source: the verifier accepts exactly if the index is in the domain, the header lengths are right, every native and nested claim holds and the evaluation, commitment and registry checks hold, at challenges drawn independently (proved on the body copied from /repo); the polynomials of a claim, sums and folds are proved for any number of polynomials. The table of claims and the values k(y) are contracts on the real code (symbolic or ground). Bounded remainder: that honest histories are accepted, and a catalogue of alterations compensated so that exactly one claim fails, are executed over the real field and curves."),
 "C12": ("Verus contracts on the extracted mask and stage code (unbounded); symbolic execution for multi-stage and bonding circuits", "proof", "Mask polynomials in all three evaluation orders, their constraint counts, stage layout and stage polynomials are proved for every rank, position, length and point on bodies copied from /repo. Bounded remainder: multi-stage and bonding circuits at listed shapes (symbolic values); masks against the enumeration of their constraints at every position and length of rank 7."),
}
NA = {
 "C22": "Computational soundness and zero knowledge quantify over probabilistic adversaries and rest on hardness assumptions; no function contract expresses or decides them.",
 "C23": "Schedules of real threads are outside the reach of the installed deductive verifiers (Kani has no thread support, Verus needs its own permission types in the code); the parallel helpers are verified only through their sequential meaning in C05, C06 and C09.",
}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[], hooks=dict(guard="cfg ragu_verif", enable="RAGU_VERIF_HOOKS=/verif/hooks RUSTFLAGS='--cfg ragu_verif --cap-lints warn'", source_commits=["8699dcbb3770b9be8ab56321428af806357b3548", "3fff320a3757eef0ddf3baddb5edc2a3df30b39c"]))
for p in props:
    if p in CHECKS:
        t, l, n = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"python3 checks/{p}.py", thorough_cmd=f"python3 checks/{p}.py", technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
