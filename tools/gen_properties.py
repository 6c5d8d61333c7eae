#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title)); P.append(d)
A="crates/ragu_arithmetic/src/"; C="crates/ragu_core/src/"; M="crates/ragu_macros/src/"; R="crates/ragu_primitives/src/"; K="crates/ragu_circuits/src/"; D="crates/ragu_pcd/src/"; G="crates/ragu_pasta/"

# ---------------------------------------------------------------- arithmetic
prop("A01","Domain transforms equal direct evaluation and invert exactly",
 "For every supported power-of-two domain and every coefficient vector of that length, the forward transform yields the polynomial's values at the successive powers of the domain's primitive root of unity and the inverse transform recovers the coefficients, for field elements and for any other module over the field. The result does not depend on how many worker threads are available.",
 ["inputs","configurations"],"all domain sizes 2^k supported by the field, all input vectors, element types, thread counts",
 "The tests transform one fixed geometric vector for sizes up to 2^8, single-threaded field elements only.",
 [A+"fft.rs",A+"domain.rs"],[("iterative and recursive butterflies",A+"fft.rs fft / recursive_butterfly_arithmetic"),("domain constants by repeated halving",A+"domain.rs Domain::new")],
 ["outputs of forward/inverse transform"])
prop("A02","Lagrange coefficients and domain membership are exact",
 "For every domain, a point is reported as a member exactly when it is a power of the domain's primitive root. For every non-member point the requested leading Lagrange coefficients equal the values of the Lagrange basis polynomials there (so they interpolate every polynomial of degree below the domain size), and for every member point no coefficients are returned.",
 ["inputs"],"all domains, all points (members, non-members, roots of larger domains, zero), all requested prefix lengths",
 "One domain (2^5) and one outside point are tested, always with the full length.",
 [A+"domain.rs"],[("ell: batch-inverted barycentric weights",A+"domain.rs Domain::ell"),("membership by x^n = 1",A+"domain.rs Domain::contains")],["returned vectors and membership booleans"])
prop("A03","Multi-scalar multiplication equals the naive sum",
 "For every list of scalars and equally long list of curve points, the fast multi-scalar multiplication equals the sum of the individual products, including zero, one and maximal scalars, identity points, repeated and opposite points and empty lists, and regardless of thread count. Converting a batch of points to affine form preserves every point, including the identity.",
 ["inputs","configurations"],"all lengths (across every window-size threshold), scalar and base patterns, both curves, thread counts",
 "One fixed length with sequential scalars is tested; window thresholds and degenerate points are not sampled.",
 [A+"util.rs"],[("bucketed window sums",A+"util.rs mul"),("window width table",A+"util.rs bucket_lookup"),("batch normalisation",A+"util.rs batch_to_affine")],["returned curve points"])
prop("A04","Polynomial helper functions match their mathematical definitions",
 "Evaluation, inner product, exact division by a linear factor (both eager and streaming), geometric sums and construction from a list of roots agree with their schoolbook definitions for every input length and value. Inputs of unequal length to the inner product and empty dividends are rejected by panicking rather than producing a value.",
 ["inputs"],"all lengths including 0, 1 and non-powers of two; zero/one/repeated roots; ratio 0, 1, -1",
 "A handful of fixed lengths and values are tested.",
 [A+"util.rs"],[("Horner evaluation, synthetic division, doubling geosum, FFT product tree",A+"util.rs eval/dot/factor/factor_iter/geosum/poly_with_roots")],["returned values"])
prop("A05","Symbolic coefficients behave exactly like the field elements they denote",
 "Sums and products of symbolic coefficients always denote the sum and product of the field elements the operands denote, through any sequence of operations, and a coefficient reports being zero exactly when the element it denotes is zero.",
 ["inputs","programs"],"all pairs of coefficient variants, all expression trees, fields of any odd characteristic",
 "Tests sample single operations on a few values.",
 [A+"coeff.rs"],[("variant-by-variant add and mul tables",A+"coeff.rs Add/Mul for Coeff")],["denoted value and is-zero flag"])
prop("A06","The wide challenge integer behaves as an unsigned integer modulo 2^136",
 "Conversions, bitwise and/or, left and right shifts by any amount, equality and random sampling of the 136-bit challenge integer match ordinary unsigned integers truncated to 136 bits; bits above the width are never observable. Sampled values cover the whole width.",
 ["inputs","programs"],"all values, all shift amounts (including limb boundaries, the width and beyond), all operation sequences",
 "Tests fix a few values and shift amounts.",
 [A+"uendo.rs"],[("limb-wise operators and top-limb masking",A+"uendo.rs")],["debug rendering and equality"],hook="ragu_verif: re-export of the private integer type")
prop("A07","256-bit literals denote exactly the written integer",
 "A 256-bit integer literal macro, for every spelling it accepts (hexadecimal, decimal, octal, binary, digit separators, leading zeros), produces the four little-endian 64-bit limbs of exactly that integer; literals that do not fit or are malformed are rejected at compile time. The field-literal macros built on it denote the element with that canonical integer value.",
 ["inputs"],"all literal spellings and values up to 256 bits",
 "The tests fix a few literals.",
 [M+"proc/repr.rs",G+"src/macros.rs"],[("literal parsing to limbs",M+"proc/repr.rs")],["limb arrays, field element representations, compile errors"])

# ---------------------------------------------------------------- core
prop("C01","Witness containers obey their presence laws",
 "A witness container that is statically present holds exactly one value and one that is statically absent holds none: every combinator on the present kind returns what applying the function to the held value would return and runs each supplied closure exactly once, while every combinator on the absent kind yields absence and never runs a closure. Combinators over several containers and over fallible results, tuples, references and clones preserve the values, their order and their errors.",
 ["inputs","programs"],"all combinator chains, both presence kinds, all closure outcomes including errors",
 "Unit tests exercise each combinator once on an integer or two.",
 [C+"maybe.rs",C+"maybe/always.rs",C+"maybe/empty.rs",M+"proc/maybe_cast.rs"],[("type-level presence kinds",C+"maybe"),("tuple casting macro",M+"proc/maybe_cast.rs")],["returned values, closure call log"])
prop("C02","Errors keep their identity, message and cause",
 "Every error kind renders a message that contains the quantities it carries (limits, actual values, explanatory text), and wrapping another error preserves it as the reported cause and in the rendered text. A wrapped error can be recovered unchanged from the library's error.",
 ["inputs"],"all error kinds and payload values, any wrapped error chain",
 "The two tests check fixed payloads.",
 [C+"errors.rs"],[("error enum with display/source derivations",C+"errors.rs")],["display text, source chain, variant"])
prop("C03","Emulated execution computes every wire's true value",
 "Running any circuit code under the value-tracking emulator assigns every wire the value implied by its definition (products, linear combinations with scaling, constants, allocations), and extracting wires returns those values; running it under the valueless emulator yields the same wire-free results. Errors raised by witness closures, routine prediction or routine execution surface unchanged, and closures never run when witnesses are absent.",
 ["programs","inputs"],"all circuit programs over the driver operations, all witness values, all emulator modes, error at any closure",
 "Tests drive a few short fixed programs.",
 [C+"drivers/emulator.rs",C+"drivers.rs",C+"drivers/linexp.rs"],[("wired/wireless emulator modes",C+"drivers/emulator.rs"),("direct-sum linear expressions",C+"drivers/linexp.rs")],["wire values, closure call log, returned errors"])
prop("C04","All interpreters of circuit code see the same constraint system",
 "The sequence of gates, wires and constraints that circuit code produces depends only on the code and its static parameters: it is identical for every witness value, for present and absent witnesses, and for every driver, including the gain scaling inside linear combinations. A routine produces the same gates and constraints wherever and however often it is invoked, whether or not its result was predicted.",
 ["inputs","programs","configurations"],"all gadgets and circuits, all witness values, all drivers, all routine nestings",
 "Tests compare a few totals on fixed witnesses.",
 [C+"drivers.rs",C+"routines.rs",K+"metrics.rs",K+"s",R[:-1]],[("driver trait contract",C+"drivers.rs"),("synthesis drivers",K+"s, "+K+"metrics.rs, "+K+"trace.rs")],["recorded gate and constraint streams"])
prop("C05","Gadget conversion preserves structure, order and wire count",
 "Mapping a gadget between drivers visits each wire exactly once in one fixed order, produces the same gadget with every wire replaced by its image and every witness carried over, and the number of wires reported for a gadget equals the number visited. Two gadgets of a kind are constrained equal exactly by equating corresponding wires, for every nesting of derived structs, tuples, arrays, boxes, vectors and unit.",
 ["programs","inputs"],"all gadget types built from the derive macros and foreign containers",
 "Tests use a few hand-written gadgets.",
 [C+"gadgets.rs",C+"convert.rs",R+"foreign.rs",M+"derive/gadget.rs"],[("wire-map conversion",C+"convert.rs"),("derived gadget kinds",M+"derive/gadget.rs")],["visited wire order, mapped gadgets, equality constraints"])

# ---------------------------------------------------------------- macros
prop("M01","Derived gadget code is faithful for every struct shape",
 "For every supported struct shape (named-field structs with wire, witness, gadget, phantom and skipped fields in any number and order; extra type and const generics with inline bounds; renamed drivers and driver lifetimes), the derived conversion, cloning, equality-enforcement, serialization and consistency-checking code handles every field exactly once in declaration order and skips only fields explicitly marked to be skipped. Unsupported inputs (enums, tuple structs, where clauses, contradictory annotations) are rejected with a compile error rather than mis-compiled.",
 ["programs"],"all struct definitions accepted or rejected by the derive macros",
 "Tests compare token output for a few fixed definitions.",
 [M+"derive/gadget.rs",M+"derive/gadgetwrite.rs",M+"derive/consistent.rs",M+"helpers.rs",M+"substitution.rs",M+"path_resolution.rs"],[("derive expansion",M+"derive"),("generic substitution",M+"substitution.rs")],["behaviour of expanded code, compile errors"])
prop("M02","Type-rewriting helper macros name the intended types",
 "The macro that names a gadget's kind from its type replaces exactly the driver lifetime and driver parameters with the field-level placeholders and leaves every other type, lifetime, const argument and nested occurrence intact, so the named kind always maps back to the original gadget type. The tuple-cast generator provides conversions for every advertised tuple size that preserve element order.",
 ["programs"],"all path and tuple type expressions with arbitrarily nested generic arguments, all tuple sizes",
 "Tests check a few fixed type expressions.",
 [M+"proc/kind.rs",M+"proc/maybe_cast.rs",M+"substitution.rs"],[("substitution over syntax trees",M+"substitution.rs")],["type identities at compile time, element order at run time"])

# ---------------------------------------------------------------- primitives
prop("P01","Boolean gadgets compute Boolean logic and admit no other witness",
 "For every input, Boolean gadgets (allocation, not, and, conditional selection between elements, conditional equality, packing of bits into field elements, zero tests) yield the truth-table result. The constraints they emit are satisfied by the honest witness and, with the inputs fixed, by no assignment in which an output differs from that result or an allocated Boolean is not 0 or 1.",
 ["inputs","programs"],"all Boolean inputs, all field selections, all bit-vector lengths, all alternative wire assignments",
 "Tests run honest witnesses on a few inputs.",
 [R+"boolean.rs"],[("multiplication-gate encodings",R+"boolean.rs")],["wire values, recorded constraints under mutated assignments"])
prop("P02","Field-element gadgets compute field arithmetic and admit no other witness",
 "For every input, element gadgets (allocation, constants, add, subtract, double, negate, scale, multiply, square, divide, invert, zero tests, equality, fused sums, folds, powers, roots of unity checks) yield the mathematically defined result, honest witnesses satisfy all emitted constraints, and with inputs fixed no other output assignment does. Operations undefined on an input (such as inverting zero) fail with an error for honest provers and are unsatisfiable for dishonest ones.",
 ["inputs","programs"],"all field inputs (zero, one, minus one, random), all operation chains, all alternative wire assignments",
 "Tests run honest witnesses at a few points.",
 [R+"element.rs"],[("gate encodings of element operations",R+"element.rs")],["wire values, recorded constraints under mutated assignments"])
prop("P03","Curve-point gadgets implement the group law on valid points",
 "Allocating, negating, doubling, adding, double-and-adding, conditionally negating and applying the curve endomorphism to point gadgets agree with the curve group for all inputs in each operation's documented domain; points off the curve, the identity, and exceptional incomplete additions are rejected. With inputs fixed, no satisfying assignment gives a different output point.",
 ["inputs","programs"],"all pairs of curve points including equal and opposite ones, both curves, all alternative wire assignments",
 "Tests run a few random points.",
 [R+"point.rs"],[("incomplete affine formulas with non-degeneracy checks",R+"point.rs")],["wire values, constraint satisfaction, errors"])
prop("P04","Endoscalar gadgets agree with native endoscalar arithmetic",
 "For every challenge, the in-circuit endoscalar has exactly the challenge's bits, multiplying a point by it in-circuit gives the same point as multiplying by the natively lifted scalar, lifting to a field in-circuit equals the native lift, and extracting a challenge from a field element in-circuit equals native extraction. The native lift is injective on challenges that are sampled and the extraction is deterministic.",
 ["inputs"],"all 128-bit challenges (including all-zero, all-one and alternating patterns), all points, all field elements",
 "Tests run a few random challenges.",
 [R+"endoscalar.rs"],[("two-bits-per-step conditional endomorphism",R+"endoscalar.rs")],["wire values, native results"])
prop("P05","The sponge computes the specified permutation-based hash for any usage pattern",
 "For every sequence of absorbs and squeezes, in-circuit and emulated sponge outputs equal those of an independent implementation of the Poseidon permutation and duplex mode with the published parameters; saving and resuming the sponge at any permitted point continues as if uninterrupted and is refused elsewhere. Each round's constraints admit no other state.",
 ["inputs","histories","programs"],"all absorb/squeeze/save/resume interleavings, both fields",
 "Tests check a few fixed sequences for self-consistency.",
 [R+"poseidon.rs"],[("duplex mode machine",R+"poseidon.rs")],["squeezed values, errors, recorded constraints"])
prop("P06","Containers, promotion and serialization neither lose, reorder nor invent data",
 "Serializing any gadget into a buffer emits each of its elements exactly once in declaration order, and piping, fixed-length vectors (construction, collection, mapping, length checks), stripping and re-attaching witnesses, and thread-sendable wrappers return exactly what was put in. Length mismatches are reported as errors instead of truncating or padding, and re-attaching a witness never alters wires.",
 ["inputs","programs","histories"],"all gadget nestings, lengths (including 0 and mismatches), element values",
 "Tests check single fixed shapes.",
 [R+"io.rs",R+"io/pipe.rs",R+"vec.rs",R+"promotion.rs",R+"foreign.rs"],[("write trait and buffers",R+"io.rs"),("fixed vectors",R+"vec.rs"),("promotion",R+"promotion.rs")],["buffer contents, errors, wires"])
prop("P07","The simulator accepts exactly satisfying executions and counts them exactly",
 "Simulating a circuit fragment succeeds exactly when its honest wire values satisfy every gate and constraint it emits, reporting an error otherwise; the reported numbers of gates, allocations and constraints equal those actually emitted. Resetting starts a fresh count.",
 ["programs","inputs"],"all circuit fragments, satisfying and violating witnesses",
 "Tests use the simulator as their oracle but do not check it against another.",
 [R+"simulator.rs"],[("value-tracking driver with constraint checks",R+"simulator.rs")],["success/error, counters"])

# ---------------------------------------------------------------- circuits
prop("K01","Circuit wiring polynomials agree across all evaluation strategies",
 "For every circuit, evaluating its wiring polynomial at a point, restricting it to either variable, and evaluating those restrictions all give the same bivariate polynomial, which is the one defined by the circuit's recorded constraints under the documented wire-to-monomial layout. This includes evaluation at zero and at roots of unity, and any floor plan of its routines.",
 ["inputs","programs"],"all circuits, evaluation points (random, zero, one, roots of unity), ranks, floor plans",
 "Tests check a few fixed circuits at random points.",
 [K+"s/sxy.rs",K+"s/sx.rs",K+"s/sy.rs",K+"s/common.rs",K+"raw.rs"],[("three synthesis drivers",K+"s"),("shared orchestration",K+"raw.rs")],["polynomial values versus a model built from a recorded constraint stream"])
prop("K02","Assembled traces prove satisfied circuits and only those",
 "For every circuit and satisfying witness, the assembled trace polynomial satisfies the revdot identity against the circuit's wiring polynomial and public inputs at every challenge. If any trace value, any public input or the circuit is changed so that some constraint fails, the identity fails at random challenges.",
 ["inputs","programs"],"all circuits, witnesses, blinding values, challenges, single-value corruptions",
 "Tests check honest traces of a few fixed circuits.",
 [K+"trace.rs",K+"polynomials/mod.rs",K+"ky.rs",K+"raw.rs"],[("trace evaluator and assembly",K+"trace.rs"),("instance polynomial",K+"ky.rs"),("t polynomials",K+"polynomials/txz.rs")],["revdot products versus instance values"])
prop("K03","Routine floor planning is consistent between witness and wiring",
 "For every circuit built from nested and repeated routines, the number of gates and constraints measured per routine equals what synthesis and trace generation actually emit for it, routines are placed without overlap or gaps that the layout does not account for, and the assembled trace places each routine's values at exactly the positions its wiring refers to. Prediction of a routine's output never changes the trace.",
 ["programs","inputs","configurations"],"all routine trees (depth, repetition, ordering, predicted and unpredicted), witnesses",
 "Tests cover a few fixed nestings.",
 [K+"floor_planner.rs",K+"metrics.rs",K+"trace.rs"],[("prefix-sum floor planner",K+"floor_planner.rs"),("segment records",K+"metrics.rs")],["segment counts and positions; assembled trace coefficients"])
prop("K04","Routine fingerprints identify routines exactly up to structure",
 "Two routine invocations receive equal fingerprints when they perform the same sequence of gates and constraints on inputs of the same shape, regardless of where they are called, with what witnesses, or what else the circuit contains. They receive different fingerprints whenever their constraint structure, gate count or input/output types differ.",
 ["programs"],"all pairs of routines and calling contexts",
 "Tests compare selected pairs.",
 [K+"metrics.rs"],[("Schwartz-Zippel fingerprint counter",K+"metrics.rs")],["fingerprint equality"],hook=None)
prop("K05","Registry evaluations agree and bind every registered circuit",
 "For every registry, restricting its polynomial in any order and evaluating gives one trivariate polynomial, whose value at a circuit's own domain point is that circuit's wiring polynomial plus the documented key term, and is otherwise the interpolation of all of them. The digest is a deterministic function of the registered circuits and their order and changes whenever adding, removing, reordering or altering circuits changes that polynomial; exceeding the capacity is an error.",
 ["programs","inputs","histories"],"all registration sequences and category mixes, all evaluation points including domain points",
 "Tests register a few fixed circuits.",
 [K+"registry.rs"],[("bit-reversed domain placement and Lagrange interpolation",K+"registry.rs")],["evaluations, digest, membership answers, errors"])
prop("K06","Sparse polynomials behave as the dense polynomials they represent",
 "Every operation on sparse polynomials — construction, iteration in both directions, scaling, addition, subtraction, negation, folding, evaluation, dilation, revdot product and commitment — gives the result of the same operation on the dense coefficient vector of the rank's length, for every pattern of gaps and blocks. Structured trace and wiring views place each value at its documented coefficient, and overfull views are rejected.",
 ["inputs","programs"],"all coefficient patterns (gaps around the merge tolerance, boundaries, empty, full), all operation sequences, all ranks",
 "Property tests cover some single operations on small sparse inputs.",
 [K+"polynomials/sparse/mod.rs",K+"polynomials/sparse/view.rs"],[("sorted block representation",K+"polynomials/sparse/mod.rs")],["coefficients, evaluations, commitments"])
prop("K07","Rank auxiliary polynomials match their definitions",
 "For every rank, the auxiliary gate polynomial evaluates identically whether obtained as a polynomial in either variable, by direct evaluation or in-circuit, and equals its documented sum for all points including zero; it makes the revdot identity equivalent to all multiplication gates being satisfied.",
 ["inputs","configurations"],"all ranks, all evaluation points",
 "Tests check random points of one rank.",
 [K+"polynomials/mod.rs",K+"polynomials/txz.rs"],[("closed-form t(X,Z)",K+"polynomials/mod.rs")],["evaluations"])
prop("K08","Staged witnesses occupy disjoint regions and their masks enforce exactly that",
 "For every chain of stages, each stage's values are placed in gates disjoint from every other stage, the sum of separately built stage polynomials and the final trace equals a satisfying trace of the whole circuit, and each stage's mask accepts every polynomial supported on that stage's region and rejects any polynomial with a non-zero coefficient outside it. Stage size reports equal what is actually allocated, and overfull stages are errors.",
 ["programs","inputs"],"all stage chains and sizes, skipped stages, witnesses, single out-of-region corruptions",
 "Tests check a few fixed stage layouts.",
 [K+"staging/mod.rs",K+"staging/builder.rs",K+"staging/mask.rs"],[("stage offset accounting",K+"staging/mod.rs"),("closed-form mask polynomial",K+"staging/mask.rs")],["stage coefficients, revdot against masks, errors"])
prop("K09","Bonding circuits constrain only staged wires and do so exactly",
 "A circuit converted to a bonding object contributes precisely its linear constraints over staged wires and nothing else: satisfied stage polynomials pass, any violation is detected at random challenges, and circuits that need their own gates, constants or the one wire are rejected with an error.",
 ["programs","inputs"],"all bonding circuits, stage values, violations",
 "Tests check a couple of fixed bonding circuits.",
 [K+"staging/bonding.rs"],[("restricted driver and one-wire stripping",K+"staging/bonding.rs")],["bonding polynomial evaluations, errors"])
prop("K10","Capacity limits are enforced as errors at exactly the documented bounds",
 "Circuits, traces, stages and registries that fit the rank's limits on gates, constraints and circuits are accepted and those that exceed them by even one are rejected with the specific bound error carrying the limit, never by a panic, truncation or silent wrap-around.",
 ["programs","inputs","configurations"],"sizes at, just below and above every limit, all ranks",
 "Few limits are tested, at single sizes.",
 [K+"lib.rs",K+"metrics.rs",K+"trace.rs",K+"registry.rs",K+"staging/mask.rs"],[("bound checks",K+"lib.rs into_circuit_object; "+K+"trace.rs; "+K+"registry.rs")],["errors and accepted objects"])
prop("K11","Parallel execution never changes results and is race-free",
 "Trace generation, transforms, multi-scalar multiplication and proof generation produce bit-identical results for every thread count, schedule and build configuration (parallel or serial), and trace generation fails exactly when serial execution fails, with the same error when a single routine fails. No execution contains a data race or undefined behaviour.",
 ["schedules","configurations","inputs"],"all interleavings of deferred routines and parallel loops, thread counts, injected delays and failures",
 "Tests run one schedule on the default build and never look for races.",
 [K+"trace.rs",A+"multicore.rs",A+"util.rs",A+"fft.rs",R+"promotion.rs",C+"convert.rs"],[("scoped spawning with a result channel, sorting by position",K+"trace.rs"),("sendable gadget wrapper",R+"lib.rs")],["trace coefficients across schedules, sanitizer reports"])
prop("K12","Public inputs are bound in order and in full",
 "The instance polynomial of a circuit is determined exactly by its serialized output in order with the documented constant term, so two different instances of equal length give different polynomials, and a trace for one instance is rejected against another. Computing it natively and from the circuit gives the same value at every point.",
 ["inputs"],"all instances, lengths, evaluation points",
 "Tests check a couple of fixed instances.",
 [K+"ky.rs",K+"horner.rs",K+"lib.rs"],[("descending Horner with trailing one",K+"ky.rs")],["instance polynomial values"])

# ---------------------------------------------------------------- pcd
prop("D01","Every honestly produced proof verifies",
 "For every application, any tree of seed and fuse operations with valid step witnesses yields proofs that verify, carrying the header data computed by the steps, at any depth and with any mixture of registered steps, header types and randomness.",
 ["histories","inputs","programs"],"all derivation trees, step/header sets, witnesses, random seeds",
 "One or two fixed small trees are tested.",
 [D+"lib.rs",D+"fuse",D+"verify.rs",D+"step"],[("fuse pipeline",D+"fuse"),("verification",D+"verify.rs")],["verification verdicts and header data"])
prop("D02","Altered proofs and false claims never verify",
 "If the claimed header data, header type, step or application of an honestly produced proof is changed, or any of its child headers, challenges, witness polynomials, bridge commitments, the combined-claim polynomials and value, the aggregated polynomial with its value and commitment, or the registry polynomial, verification does not accept. Malformed proofs yield rejection or an error, never acceptance and never a panic; a proof whose child headers have the wrong length or whose step index lies outside the registry is reported as invalid. Components that only a later fuse consumes (cached native commitments) may pass verification when altered, but then no proof fused from that one verifies.",
 ["inputs","fault_sequences"],"every proof component, single and combined corruptions, swaps between proofs, cross-application use",
 "Tests reject a few chosen alterations.",
 [D+"verify.rs",D+"proof",D+"lib.rs"],[("claim checks: domain membership, header sizes, revdot claims, commitments",D+"verify.rs")],["verification verdicts"],hook="ragu_verif: indexed mutable access to proof fields and access to header data")
prop("D03","Rerandomization preserves meaning and hides the original proof",
 "Rerandomizing any valid proof yields a proof that verifies with identical header data and can be fused further, and whose proof components differ from the original and from other rerandomizations under fresh randomness. Rerandomizing an invalid proof that carries a non-trivial header never yields one that verifies.",
 ["inputs","histories"],"all valid proofs, repeated rerandomization, interleaved with fusing, corrupted proofs",
 "One small case is tested.",
 [D+"lib.rs",D+"step/internal/rerandomize.rs"],[("internal rerandomization step",D+"step/internal/rerandomize.rs")],["verdicts, header data, proof component equality"],hook="ragu_verif proof access")
prop("D04","Step and header registration accepts exactly the valid orders",
 "Registering steps in their declared index order with globally unique header suffixes succeeds and every other registration history (skipped, repeated or out-of-order index, two different headers sharing a suffix) fails with an initialization error, leaving no way to use the wrong step. Using a step that was not registered with an application is refused, stopped by an assertion, or yields nothing that verifies.",
 ["histories","programs"],"all registration sequences over step/header universes",
 "Tests cover three fixed failures.",
 [D+"lib.rs",D+"step/mod.rs",D+"header.rs"],[("sequential index and suffix uniqueness checks",D+"lib.rs")],["registration results"])
prop("D05","Header encodings are injective and fixed-size",
 "Every header's encoding fills exactly the configured header size, ends in its unique suffix, and two different header values or types never share an encoding; headers too large for the configured size are refused. Uniform and gadget-preserving encodings of the same header agree.",
 ["inputs","programs","configurations"],"all header types, values, header sizes",
 "Tests check a few fixed headers.",
 [D+"header.rs",D+"step/encoder.rs",D+"step/internal/padded.rs"],[("suffix-terminated padding",D+"step/internal/padded.rs")],["encoded header contents"],hook="ragu_verif access to encoders if not reachable publicly")
prop("D06","Fiat-Shamir challenges bind everything sent before them",
 "Each challenge derived while fusing depends on every commitment produced before it and on the application, and equals the one recomputed in the recursive circuit; replaying identical inputs and randomness reproduces the identical proof, and changing any earlier message changes all later challenges.",
 ["histories","inputs"],"all message sequences, single-message perturbations",
 "Not tested directly.",
 [D+"internal/transcript.rs",D+"fuse"],[("sponge transcript",D+"internal/transcript.rs")],["challenge values in proofs, transcript outputs"],hook="ragu_verif access to challenges and the transcript")
prop("D07","Failed or mismatched steps produce no proof",
 "If a step's witness violates its own checks, or its inputs do not match what the step requires, fusing returns an error or yields a result that does not verify; a proof fused from a non-trivial child whose header data, challenges, witness polynomials or native commitments are invalid never verifies. Failures leave the application usable.",
 ["inputs","fault_sequences","histories"],"all failing witnesses, corrupted or mismatched children",
 "One assertion failure is tested.",
 [D+"fuse",D+"step",D+"lib.rs"],[("step adapter circuit and claim checks",D+"step/internal/adapter.rs; "+D+"verify.rs")],["errors, verification verdicts"],hook="ragu_verif proof access")
prop("D08","Folding claims and scaling points agree between prover and circuit",
 "Folding revdot claims yields a combined claim that holds exactly when the individual claims and error terms are consistent, for every group shape, with the in-circuit and native computations equal; accumulating commitments by repeated endoscaling equals the corresponding native linear combination.",
 ["inputs","configurations"],"all claim counts, group sizes, challenges, point lists",
 "Tests cover fixed small shapes.",
 [D+"internal/fold_revdot.rs",D+"internal/endoscalar.rs"],[("two-layer error-term folding",D+"internal/fold_revdot.rs"),("chunked Horner endoscaling",D+"internal/endoscalar.rs")],["folded values, interstitial points"],hook="ragu_verif re-export of the folding and endoscaling modules")

prop("D09","The recursion circuits bind every value they relate",
 "Each recursion circuit accepts exactly the transcript challenges, claim values, folded claims and final evaluation that follow from its inputs: for an honest fuse all five circuits' claims hold, and altering any single value a circuit is responsible for (a public instance slot, a child's header or instance, a sponge state, an error term, a collapsed claim, a query or evaluation) makes its claim fail, whether the prover retraces the circuit with the altered value or swaps it in afterwards. Only a fuse of two children with trivial headers leaves the combined claim free.",
 ["inputs","histories"],"all fuses, all recursion-circuit inputs, all alterations",
 "Tests verify honest proofs, which a circuit with a missing constraint also produces.",
 [D+"internal/native/circuits/hashes_1.rs",D+"internal/native/circuits/hashes_2.rs",D+"internal/native/circuits/inner_collapse.rs",D+"internal/native/circuits/outer_collapse.rs",D+"internal/native/circuits/compute_v.rs",D+"internal/native/stages/preamble.rs"],[("in-circuit verification of the previous layer",D+"internal/native/circuits.rs"),("stages shared by the circuits",D+"internal/native/stages/mod.rs")],["stage values, public instances, claims"],hook="ragu_verif re-export of the recursion circuits")

# ---------------------------------------------------------------- parameters
prop("G01","Public parameters are valid, reproducible and independent of how they are loaded",
 "The curve generators are deterministic, lie on their curves, are never the identity, pairwise distinct, in the documented number, and identical whether generated at run time or loaded from the baked-in copy. Committing under them is binding on position: the same value in two positions gives different commitments.",
 ["configurations","inputs"],"all generators of both curves, all load paths",
 "Tests compare a few generators.",
 [G+"pasta_common.rs",G+"src/lib.rs",G+"build.rs"],[("hash-to-curve parameter generation",G+"pasta_common.rs"),("baked deserialization",G+"src/lib.rs")],["generator lists"])
prop("G02","Poseidon constants are exactly the standard nothing-up-my-sleeve constants",
 "For both fields, every round constant and every entry of the mixing matrix equals the value produced by the standard Grain generator for the documented width, round numbers and field, and the matrix is maximum-distance-separable.",
 ["inputs"],"all constants of both permutations",
 "Tests only hash a fixed input or check counts.",
 [G+"src/poseidon_fp.rs",G+"src/poseidon_fq.rs"],[("constant tables",G+"src/poseidon_fp.rs, poseidon_fq.rs")],["constant tables through the permutation interface"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
