"""Technique and assurance note of each check."""
ARITH = "online oracle: every call of the real code is compared with an independent schoolbook model while it runs"
EXPL = "Exploration: says that no monitored execution broke the property; coverage is the diversity counted in the evidence. Trusts the offline stand-ins in shims/ (field and curve arithmetic) where the code calls external crates."
HOST = EXPL + " Soundness is judged on small fields by complete or pruned search over assignments and on large fields by solving the recorded constraints and mutating assignments; it is not a proof for all inputs."
NOTES = {
    "A01": ("differential runtime monitor: real transforms against direct evaluation, small and large fields, varied thread pools", EXPL + " All coefficient vectors of tiny fields are covered for the smallest domains."),
    "A02": ("differential runtime monitor against textbook Lagrange formulas; every point of tiny fields", EXPL),
    "A03": ("differential runtime monitor: MSM against naive sum, structured and hostile inputs, varied thread pools", EXPL),
    "A04": ("differential runtime monitor against schoolbook definitions, with panic monitors", EXPL),
    "A05": ("lock-step monitor of operation histories against field elements, exhaustive histories over a tiny field", EXPL),
    "A06": ("lock-step monitor of operation histories against a 256-bit model integer", EXPL),
    "C01": ("online monitor of every combinator's observable effects (values, closure calls and their order) against plain Option semantics, generated programs", EXPL),
    "A07": ("generated literals expanded by the real macro and compared with big-integer limbs at run time; malformed and oversized literals fed to the compiler", EXPL),
    "M01": ("generated struct definitions compiled with the real derives and run under recording drivers with injected faults; unsupported definitions fed to the compiler next to accepted controls", EXPL),
    "M02": ("generated type expressions named through the real macro and compared by runtime type identity; generated tuple casts run and compared", EXPL),
    "C02": ("monitor over generated error values and cause chains: rendered text and source chain against the carried payload", EXPL),
    "C03": ("lock-step monitor: generated circuit programs under the emulator against an independent recording driver and direct evaluation, with injected faults", EXPL),
    "C05": ("recorded wire/value/fault traces of conversions of generated gadget shapes, checked against declaration order", EXPL),
    "C04": ("recorded event streams of the same generated circuit code under every witness, with and without witnesses, and under every placement of a routine, compared with each other", EXPL),
    "P01": ("generated and exhaustive gadget programs recorded gate by gate; honest values against truth tables, and a hostile-prover search over all other assignments of the recorded constraints", HOST),
    "P02": ("generated gadget programs recorded gate by gate; honest values against field arithmetic, and a hostile-prover search over all other assignments of the recorded constraints", HOST),
    "P03": ("all point pairs of small curves and random points of the real ones through generated gadget programs; group-law oracle plus hostile-prover search over the recorded constraints", HOST),
    "P04": ("structured and random challenges through the real gadgets against a bit-level model of the endomorphism ladder, with hostile-prover search over the recorded constraints", HOST),
    "P05": ("lock-step monitor of generated absorb/squeeze/save/resume histories against an independent permutation and duplex model, with hostile-prover search", HOST),
    "P06": ("identity-tracking monitors over generated nestings, lengths, pipes, thread moves and injected faults", EXPL),
    "P07": ("lock-step monitor of generated driver calls and programs against an independent recording driver and constraint checker", EXPL),
    "K01": ("recording driver over generated circuits builds a bivariate model; the real sxy/sx/sy evaluators are compared with it coefficient by coefficient; crash monitor over very long wire chains in child processes", EXPL),
    "K02": ("online oracle: assembled traces of generated circuits checked against recorded values and the revdot identity at random challenges, then every kind of single-value corruption", EXPL),
    "K03": ("recorded segment streams of generated routine trees compared with measured segments, plan, trace positions and trace bits under toggled predictions, serial and multicore builds", EXPL),
    "K04": ("recorded canonical constraint streams of routine families compared pairwise with the fingerprints the library assigned", EXPL),
    "K08": ("generated stage chains run through the real stage API; produced polynomials, masks and verdicts compared coefficient by coefficient with the documented layout and the recorded constraints", EXPL + " Every (skip, size) mask of the small rank is covered."),
    "K09": ("generated bonding circuits, legal ones compared with their recorded constraints, ones with a forbidden operation anywhere monitored for refusal", EXPL),
    "K05": ("registries of generated circuits and bonding objects against a model of key, offsets and domain; every view of the real polynomial compared with it, and digests compared across near-identical registries", EXPL + " Digest binding is judged between generated neighbours (one coefficient, order, slot or size apart); the number of digest iterations is not observable."),
    "K06": ("lock-step monitor of operation histories on sparse polynomials against dense coefficient vectors; commitments against naive sums", EXPL),
    "K07": ("the real auxiliary-polynomial gadget against direct evaluation at every point of small fields, with hostile-prover search over its recorded constraints", HOST),
    "K10": ("circuits, stages and registries generated exactly at, one below and one above each limit; refusal or model agreement decides", EXPL),
    "D01": ("generated derivation histories (several applications, branching trees, hostile randomness) run next to a plain model of every step; each proof produced is verified and its header data compared", EXPL),
    "D02": ("every component class of honestly produced proofs corrupted singly, in combinations and by grafting from other proofs; the verifier's verdict is the monitored event", EXPL + " Components the pinned verifier leaves to later work (see DESIGN.md) are driven but only monitored for panics."),
    "D03": ("repeated rerandomization interleaved with fusing, under fresh, repeated and degenerate randomness; verdicts, header data and component fingerprints compared", EXPL),
    "D04": ("every registration history over a small universe of steps and headers against a model of the rules, then foreign steps used with the accepted applications", EXPL),
    "D05": ("generated headers, values and sizes encoded by the real encoders and compared with a model encoding and pairwise for collisions", EXPL),
    "D06": ("challenges of real proofs recomputed by an independent sponge transcript; single-message perturbations of the inputs compared challenge by challenge", EXPL),
    "D07": ("failing step witnesses, foreign inputs and corrupted children injected at every position of generated histories; results and later use of the application monitored", EXPL),
    "K12": ("recorded outputs of generated circuits against instance polynomial values and interpolated coefficients; cross-instance rejection", EXPL),
    "K11": ("schedule monitors: traces, transforms, sums and whole proof histories repeated over thread pools, injected delays, faults and panics and compared with serial execution and the serial build; ThreadSanitizer (with a deliberate race as self-test) and, in the thorough tier, Miri", EXPL + " Races are sought in the monitored schedules only; Miri runs without the aliasing models, under which its dependencies (crossbeam-epoch, rayon-core) are rejected."),
    "D08": ("online oracle: claim folding and accumulation run on generated claims next to native arithmetic, altered claims and errors must not fold to a valid claim; the constraint systems involved are recorded and attacked", HOST),
    "D09": ("trace-mutation monitor: the values of recorded fuses are recovered, each input of each recursion circuit is altered in the running prover or after tracing, and the circuit's claim must fail at random challenges", HOST),
    "G01": ("online oracle: every published generator recomputed through an independent derivation of its hash message, compared across baked and generated parameters, with algebraic monitors", EXPL + " The hash-to-curve map itself is an offline stand-in, so the derivation of its input is what is checked."),
    "G02": ("online oracle: constants recomputed by an independent Grain generator and permutation runs compared with a model", EXPL),
}
NOT_APPLICABLE = {}
