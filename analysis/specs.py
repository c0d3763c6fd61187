"""property id -> (check, rule, assumptions)"""
import spec_basic as B
import spec_protocol as SP
import spec_index as SI
import spec_config as SC
import spec_pre as SPRE
import spec_aux as SA
import spec_honest as SHO
import spec_perm as SPM
import spec_misc as SM
import spec_flow as SFL

TRUST = [
    "rustc's type checker and THIR (the program analysed is the one the compiler builds)",
    "the models of std, ark-ff, ark-poly and ark-poly-commit operations in analysis/models.py",
    "exact field arithmetic; machine integers do not overflow in size computations (dimensions are far below 2^63)",
]
RULE = ("Abstract interpretation of the type-checked program (THIR) into value-number terms: one structured pass per "
        "function with joins at merges, closed forms for loops and iterator chains. Each obligation compares the term "
        "computed from the current source with a specification term; identical normal forms discharge it for all "
        "inputs, otherwise random interpretation of both terms must separate them before a violation is reported. "
        "Samples list every obligation with its anchor and verdict.")

LRULE = ("Whole-protocol value-flow analysis: TurboPlonk::prove, TurboPlonk::verify, Multiopen::prove and Multiopen::verify "
         "are each summarised once, from the type-checked program (THIR), into value-number terms (loops and iterator chains "
         "in closed form, every callee inlined or replaced by a contract). The terms of both sides are then interpreted over the "
         "same random finite circuit structures (columns, rotations, constraint trees, chunk widths, usable rows, opening sets) "
         "with random field values, and compared with an independently written specification of the constraints, transcripts, "
         "openings or argument polynomials. No code of the crate is executed and no path is enumerated.")
LTRUST = TRUST + [
    "hashing the transcript behaves like a random function of everything absorbed; commitments are a random linear map of the polynomial plus blinding",
    "circuit structures used for interpretation: 2 to 32 rows (some checks 128 or more), extension ratios 1 to 32, up to 24 gates, 17 permuted columns in 9 chunks, up to 6 lookups of up to 10 expressions, 14 quotient chunks, openings of up to 18 oracles in 14 sets, degenerate columns, sparse and empty quotients, no or few blinding rows; agreement on them stands for all sizes because the terms are uniform in the sizes",
]

IRULE = ("Abstract interpretation of Indexer::index (type-checked THIR, every callee inlined) into one value-number term for the "
         "result and one guarded term per potential panic (index, unwrap, subtraction, division, assertion). Both are interpreted over "
         "random circuit shapes (gate and lookup trees of several degrees, permuted columns, vanishing polynomials with fewer roots than "
         "the domain, missing oracles, unconfigured expressions, fields with a largest domain) and compared with the degrees of the "
         "constraints derived independently from the protocol.")
ITRUST = TRUST + ["constraint degrees follow the constraint set of C05, C06 and C08", "circuit shapes used for interpretation: up to 16 rows, 5 permuted columns, 3 gates, 2 lookups; the terms are uniform in the sizes"]

CRULE = ("Abstract interpretation of the configuring functions (type-checked THIR) into value-number terms for the results and for the final "
         "value of every &mut column list; the terms are interpreted over random declared expressions, queries and column lists (labels shared "
         "between kinds, rotations registered before, queries repeated) and compared with an independently written translation.")
PRULE = ("Abstract interpretation of the preprocessing constructors (type-checked THIR) into value-number terms, compared field by field with the "
         "columns they were given over random column lists; the summaries of TurboPlonk::prove and TurboPlonk::verify are interpreted over the same "
         "circuits and the preprocessed columns each hands to the batched opening (polynomial, commitment, randomness, rotations) are compared.")

MRULE = ("Abstract interpretation of MockProver::prove (type-checked THIR) into one guarded term per potential panic and one for the result; "
         "the terms are interpreted over random circuits whose gates vanish on every row and over the same circuits with one gate made nonzero "
         "at one row (first, last, inner); labels may be shared between oracle kinds and queries carry rotations of either sign.")
WRULE = ("Abstract interpretation of every serialize/deserialize body of the crate (derived ones after expansion) into value-number terms over an "
         "abstract stream; the sequence of components written is compared with the struct's components and the sequence read back with what was "
         "written, for each format, with each single write or read failing in turn.")

HRULE = ("Whole-protocol value-flow analysis: the value-number summaries of TurboPlonk::prove, TurboPlonk::verify, Multiopen::prove and "
         "Multiopen::verify (each from one structured pass over the type-checked program, callees inlined) are interpreted over random "
         "circuits together with assignments constructed to satisfy every constraint, or to violate exactly one, under the full vanishing "
         "polynomial or one with fewer roots; the guarded terms of all potential panics are interpreted with them.")

FRULE = ("Interprocedural, flow-insensitive dataflow analysis of every function body of the crate (type-checked THIR): sources are calls that read "
         "the clock, the environment, files, the network, thread identity, operating-system randomness, per-process hashing keys or addresses, "
         "reads of static mutable state and thread-locals, generators seeded with constants, and iteration over hash collections; taint "
         "propagates through values, exclusive references, closures, calls and (for ambient values) branch conditions. A violation is a source "
         "that reaches the result or an exclusive reference of a public function or trait method; collecting into an ordered or hashed "
         "collection, sorting, counting and commutative accumulation forget iteration order.")

MRULE28 = ("Abstract interpretation of permute_for_lookup (type-checked THIR) into value-number terms for its result and one guarded term per "
           "potential panic (the map of counts, the pops and the indexed writes become recurrences); the terms are interpreted over every "
           "input and table of length 1 and 2 and over random ones up to length 11 with repeated, missing and extreme values. The code only "
           "compares and copies elements, so its behaviour on an input depends on the order pattern of the values alone.")

REG = {
    "C01": (SP.c01, LRULE, LTRUST),
    "C02": (SP.c02, LRULE, LTRUST + ["verifier key and preprocessed commitments are not part of the statement's transcript (recorded TODO in the code)"]),
    "C03": (SP.c03, LRULE, LTRUST),
    "C04": (SP.c04, LRULE, LTRUST),
    "C05": (SP.c05, LRULE, LTRUST),
    "C06": (SP.c06, LRULE, LTRUST),
    "C07": (SP.c07, LRULE, LTRUST),
    "C08": (SP.c08, LRULE, LTRUST),
    "C09": (SP.c09, LRULE, LTRUST),
    "C10": (SP.c10, LRULE, LTRUST + ["permute_for_lookup is a function of its two arguments (decided by C28)"]),
    "C11": (SP.c11, LRULE, LTRUST),
    "C12": (SP.c12, LRULE, LTRUST),
    "C13": (SP.c13, LRULE, LTRUST),
    "C14": (SP.c14, LRULE, LTRUST + ["library calls with their documented preconditions do not panic; challenges do not collide with domain points"]),
    "C24": (SP.c24, LRULE, LTRUST),
    "C25": (SA.c25, MRULE, TRUST),
    "C26": (SA.c26, WRULE, TRUST + ["the component types' own serialization round-trips", "compressed and uncompressed streams differ; unchecked reading takes what uncompressed writing wrote"]),
    "C27": (SP.c27, LRULE, LTRUST),
    "C28": (SPM.c28, MRULE28, TRUST + ["field elements are totally ordered and hashing/ordering of BTreeMap keys is by value"]),
    "C32": (SM.c32, RULE, TRUST + ["cloning a component of a library type copies it"]),
    "C33": (SM.c33, RULE, TRUST + ["PolynomialCommitment::setup and trim behave as documented"]),
    "C34": (SM.c34, RULE, TRUST),
    "C35": (SFL.c35, FRULE, ["crates.io dependencies are functions of their arguments", "a hash collection's iteration order is arbitrary", "what is printed is not a result"]),
    "C29": (SHO.c29, HRULE, LTRUST + ["permute_for_lookup sorts its first argument and arranges the table as documented (C28)", "the indexed extended domain is large enough (C19)"]),
    "C31": (SHO.c31, HRULE, LTRUST),
    "C15": (B.c15, RULE, TRUST),
    "C16": (B.c16, RULE, TRUST + ["rotation degrees are smaller than the domain size"]),
    "C17": (SC.c17, CRULE, TRUST + ["queries are within the assigned columns"]),
    "C18": (B.c18, RULE, TRUST),
    "C19": (SI.c19, IRULE, ITRUST),
    "C20": (SPRE.c20, PRULE, LTRUST + ["committing the labelled polynomials is the caller's PolynomialCommitment::commit"]),
    "C21": (B.c21, RULE, TRUST),
    "C22": (B.c22, RULE, TRUST + ["kzg10::Randomness addition adds blinding polynomials"]),
    "C23": (B.c23, RULE, TRUST + ["ToBytes::write appends the element's canonical bytes"]),
}

TECHNIQUE = "abstract interpretation of THIR to algebraic value-number terms, compared with specification terms (normal forms, then random interpretation)"
TECH = {k: "value-flow analysis of the linked prover/verifier summaries (abstract interpretation of THIR), compared with the protocol specification by random interpretation" for k in ("C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C24","C27","C29","C31")}
TECH["C35"] = "interprocedural taint (dataflow) analysis of the type-checked program, from ambient sources and hash iteration order to results"
LEVEL_NOTE = ("For all inputs, relative to the library models: identical normal forms prove the obligation; obligations "
              "discharged only by random interpretation hold up to the (small) probability that random models fail to "
              "separate two different terms. Undecided obligations are reported in the evidence and not counted.")
NOTE = {"C35": "A sound-by-construction may-analysis up to the classification of library functions; sources that only reach printed text are allowed."}
_T = "no sound static argument in reach: "
NA = {
    "C30": _T + "soundness quantifies over computational adversaries and is a cryptographic reduction, not a fact about the code's shape; its code-level necessary conditions are claimed as C01-C06, C08, C11, C12",
}
for _k in ("C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C17","C19","C20","C24","C25","C26","C27"):
    if _k not in REG:
        NA[_k] = "check under construction"
