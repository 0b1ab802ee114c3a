"""Handwritten parts of DESIGN.md; design.py assembles the file."""

HEAD = r"""# Solver-based checking of mqt-qudits

This file is written by `tools/design.py` from the texts in `tools/design_text.py`, the bounds and assumptions declared in
`props/pNN.py`, the last evidence files (cost), `known_findings.json` and `seeded/*/meta.json`.

## 1. Approach

One engine (`engine/`, about 3500 lines, no dependency beyond z3's Python bindings and numpy) executes the **real Python code of
/repo** symbolically. Nothing of mqt-qudits is transcribed: every run imports the package from /repo's working tree, replaces
the numeric globals its modules see (`np`, `math`, `cmath`, builtins such as `int`, `round`, `abs`, `isinstance`, scipy's linear algebra) by symbolic versions
(`engine/shim.py`), and calls the public functions with symbolic arguments. A change of the code is seen because the changed code is what runs.

* **Numbers** (`engine/sym.py`). A symbolic number is an exact element of a ring: polynomials in real/complex variables and in
  `exp(i·(linear form of angles))` with coefficients in a cyclotomic field (`Q(zeta_ring)`, default ring 48, i.e. all multiples of pi/24 and their
  cosines; per-instance 96, 144, 240 where other roots are needed), over a common denominator. `sin`, `cos`, `exp`, matrix products, conjugates are exact. `sqrt`, `abs`,
  `arctan2`, `angle` of such numbers are resolved to new exact forms where the branch conditions on the path determine them (e.g. `arctan2(|sin t|,|cos t|)` on a path that knows the quadrant of `t`).
  Float literals met in the code are recognised as rationals, multiples of pi or square roots. Two numbers are equal iff their normal forms are; so equality of two matrices *for every value of every variable on the path* is decided by normal form, not by sampling.
* **Paths** (`engine/core.py`). Every comparison on symbolic values (`if`, `<`, `in`, indexing, `int()`, `range`) asks z3 whether both outcomes are possible under the path
  condition; if so the run forks (depth-first, re-execution by decision prefix). z3 works over linear real/integer arithmetic on the angles (in exact rational enclosures of pi) plus, for trigonometric conditions, monotonicity/quadrant facts. A path that cannot be followed soundly
  (a comparison the solver cannot decide, an operation outside the encoding) ends as **undecided** and is listed in the evidence; it is never counted as proved.
* **Assertions**. `ctx.equal(impl, spec)` etc. compare what the code returned with an independently written specification (`engine/spec.py`, plain formulas of the documentation: two-level rotations, exchange, embeddings by digit arithmetic, controlled operators). A residual that is not identically zero is passed to z3/numeric search for a witness on that path.
* **Counterexamples are replayed**: the solver's values are put through the unpatched code with real numpy floats, in the same process without the shim; only if that run fails too (wrong result beyond 1e-6, exception, broken side condition) the check prints `VIOLATION` with a replay file (`check.py PNN --replay FILE` runs it again). Every proved path is also run concretely at 1-2 points the solver picks on it, which guards against an engine that misreads the code (a failure there is a violation just the same).
* **Quantifiers that are not numbers** (levels, lines, gate kinds, permutations, outcomes of random draws, order of calls) are solver integers/booleans (`ctx.int`, `ctx.choice`, `ctx.bool`) where the code branches on them, and listed instances (shapes: dimensions, graphs, zero patterns of a unitary) where they fix the size of the encoding.
* **Zero patterns.** "Every unitary" in the decomposition properties is: every product of rotations, each angle in one of the strata {0}, (0.2pi, pi), {pi} (some instances: {pi/2}, (0,0.2pi)), phases arbitrary. Within dimension d such products with all patterns cover U(d) (QR factorisation) except the strips of angles next to the coincidences.
* **Compiled code** (`engine/llvm.py`, `engine/cpp.py`, `engine/trig.py`; P29). The C++ extension is compiled by clang to LLVM IR on every run (`cpp/harness.cpp` includes /repo's `bindings.cpp`; `cpp/stubs` stands in for pybind11) and every IR function reached is translated to a Python function over a byte-addressed memory whose doubles are the ring numbers above; `new`, `std::string`, red-black-tree and exception run-time calls are modelled. Comparisons with constants below 1e-9 (tolerances) are comparisons with zero; two values are equal iff identically equal; a sign that is not determined forks, and which outcomes are possible is put to z3's nonlinear solver over the cosines and sines of the angles. Replays run a native build of the same sources in a process of their own.
* **Thresholds.** The code compares against tolerances (1e-4, 1e-8, ...). In ordinary instances these comparisons are taken at generic position, the strips are outside the claim. Instances named `tiny` keep the thresholds exact: one angle ranges over (-0.015pi, 0.015pi), all comparisons with constants are decided exactly (the strip itself is a path of its own), and the residual is bounded by the gradient over the path's region and must be below 6e-4 (1.2e-3 for two-qudit gates, 6e-5 for state preparation, 2e-3 for stored phases), slightly more than the error the documented tolerances allow.
* **Modularity**. Where a property builds on another the callee may be replaced in the symbolic run by what its own property establishes (`overrides`, e.g. angle regulation = identity on operators, decided by P01/P06/P09; the controlled blocks of the entangling QR, decided by P13). The replay always uses the unpatched code. If a refactoring removes or renames such a helper the override is skipped.

Commands: `check.py PNN --tier quick|thorough [--only REGEX] [--replay FILE]`; instances run on 8 processes. `tools/gen.py` writes properties.jsonl and MANIFEST.json, `tools/kf.py` the fixed entries of known_findings.json.
The two tiers run the same harnesses; thorough adds dimensions, graphs, placements, patterns and higher path/time limits.

What the evidence says per check: instances, paths explored/proved/undecided, solver queries and seconds, replays, functions encoded, bounds, assumptions.

Trusted base: the engine (number ring, path conditions, numpy stand-ins), z3, and the specification formulas. Common assumptions: floats are exact reals; libraries outside the package (numpy linear algebra beyond what the shim encodes, networkx shortest paths on concrete graphs, tensornetwork contraction on symbolic arrays via its numpy backend) compute what they document.
"""

HOW = {
"P01": "Every gate class is constructed with symbolic angles over several periods (so every branch of the angle regulation is a path) and each ordered level pair; `to_matrix` is compared with the documented matrix. Permutations and generator indices are solver choices.",
"P02": "The two-qudit gates are built for each dimension pair and both line orders with symbolic level and angle; LS/MS involve `expm`, encoded exactly through the spectral form of the (rational) generators. Custom matrices are arbitrary complex variables.",
"P03": "dag() up to three times, copies, in-place reads, with and without controls; operator on own lines and on the register is compared with the conjugate transpose from the specification.",
"P04": "Gate matrices consist of independent complex variables, so each entry of the register operator is traced to exactly one entry: index arithmetic is decided for all matrices at once, per dimension vector and line set.",
"P05": "Control levels are solver choices, operator compared with `spec.controlled`; validation is decided over symbolic lines and levels (accepted iff meaningful).",
"P06": "Levels are symbolic integers including invalid ones, angles symbolic over and beyond the valid range; each path ends in rejection exactly when the documented condition fails, otherwise the matrix must be unitary (M M^+ = 1 symbolically).",
"P07": "Register sizes and dimensions symbolic, all orders of appending; copies/replacements/appends in every order of up to 4 gates with object identity checks.",
"P08": "Symbolic angles are written into the text as tokens that read back as the same number; any digit loss (round, format with a precision) leaves an arbitrary error variable of that size, so losing digits is a violation (replayed at 1e-10). Control levels of several digits, registers of 11 and 13 lines, comments, pi expressions, malformed lines.",
"P09": "The reductions are run over all reals of [-12pi, 12pi]; result range and equivalence of the rotation operator (up to sign) are decided per branch; cost formulas compared and their order decided by z3.",
"P10": "All zero patterns for d=2,3 and selected ones for d=4, each as a product of symbolic rotations and phases; product of the returned sequence = unitary exactly. Whole circuits with untouched gates between; backend graph unchanged; `tiny` instances with exact thresholds.",
"P11": "As P10 for the physical pass: product equals the unitary conjugated by the placement's permutation; every rotation's level pair must be an edge of the device; stored phases are applied before and restored; graph snapshot unchanged.",
"P12": "The result is compared between the initial placement and the final placement with stored phases; couplings, ground level and permutation validity of the final placement; two gates after each other; cost never above QR and limits respected.",
"P13": "For every row index, both line orders, symbolic theta/phi: product of the returned gates equals the target two-level operator on the pair.",
"P14": "Two-qudit unitaries as products of neighbouring-row rotations in all strata; decomposition equals the unitary up to a global phase. `/b` instances use the blocks' operators (P13), others run the real blocks. Built-in gates, inverted gates, controlled gates, registers with other lines, `tiny` instances.",
"P15": "compile_O0/O1/O2 with symbolic circuits on named graphs and placements and on the built-in two-qutrit backend. The compiled operator equals the input operator between initial and final placements, up to phase. A second compilation on the same backend must be independent of the first.",
"P16": "Sequences of symbolic phases, rotations and multi-line gates; operator before/after equal, phases end at the requested side, gates per line in order.",
"P17": "Arbitrary complex matrices stand for gates; for every outcome |<k|U|psi>|^2 equality is decided through rows up to phase; only removable phases go and all removable ones do.",
"P18": "Sequences chosen by the solver over gate kinds; lanes, runs, replacement and fusion; operators with arbitrary complex matrices.",
"P19": "All connected labelled graphs up to 4 nodes with placements; routing/cost/swap/phase update decided with symbolic stored phases and angles.",
"P20": "All trees up to 5 (6) nodes plus larger shapes; costs are real variables and finished flags solver booleans; returned branch is cheapest in every ordering.",
"P21": "Probabilities and draws are symbolic: every outcome of every `choice` is a path whose condition is the probability handed to it; kinds, lines and levels of inserted errors and their total probability decided.",
"P22": "States by zero pattern/equal-subtree shape with symbolic weights and phases; the circuit produced is applied to the ground state symbolically and compared with the amplitudes up to phase. `tiny` instances: one weight close to 0 or 1 with exact thresholds.",
"P23": "Same state family; the tree's path products must be the amplitudes; reductions, node counts, contributions, cutting up to the tolerance.",
"P24": "Arbitrary complex vectors/matrices; partial trace by definition; remapping for all placements; counts to density matrix with symbolic counts.",
"P25": "Circuits with gates given by arbitrary complex matrices run through the tensor-network backend on symbolic arrays; final state compared with the product of embedded operators.",
"P26": "Fidelities/distances on arbitrary matrices as polynomial identities.",
"P27": "Ansatz unitaries with symbolic parameters versus the product of documented factors, in order; bounds; sparsifier objective; layer search over arbitrary (symbolic) errors with the numerical minimiser replaced by an arbitrary result.",
"P28": "The verifier must accept the correct decomposition for every phase and placement and reject the perturbed ones (wrong angle, missing gate, wrong placement).",
"P30": "The clock, the division of the shots into chunks, the worker every chunk runs in and every random draw are solver variables; random streams are stand-ins that give equal numbers exactly for equal seeds or copied states, so a number used by two shots shows as a shared (stream, position). The outcome distribution is compared with the squared amplitudes of an arbitrary vector.",
"P31": "The history of statuses, the readings of the clock, the time-out and the pause are solver variables; the options stored and given to each of two or three runs are chosen freely and the options seen during execution are compared with the rule.",
"P29": "The whole C++ path from the Python objects through unique tables, complex table, normalisation, multiplication and the final vector is executed on its LLVM IR with symbolic angles; the result is compared entry by entry with the product of the specification's operators. Draws of errors are forked on symbolic probabilities: the outcome must be one of the combinations the model allows, none for probability zero, all for one.",
}

FALSE_ALARMS = [
 "P15: the claim that every gate uses an offered transition was restricted to local gates (the entangling pass decomposes without regard to couplings by design).",
 "P21: a claim that out-of-range probabilities are rejected was dropped; nothing documents it.",
 "P22: the approximate mode first demanded the exact state; the documented contract is a fidelity.",
 "P23: shared representatives are only claimed among the nodes the code merges.",
 "P24: kept lines of the partial trace come out in register order; the first version expected the order of the argument.",
 "P26/P27/P28: statements were narrowed to the documented shapes (two ascending lines for the variational tools, gates on all lines of the target for the verifier).",
 "P04/P05: a first encoding of custom matrices used descending line order; the code documents ascending order.",
 "P10 `tiny` on a quarter-turn base was dropped: the phases there leave the exactly representable class (undecided, not an alarm).",
]

LIMITS = """
* Thresholds: outside the `tiny` instances, strips of about 1e-3 around exact coincidences are not covered; floating-point rounding is not modelled (replays would show gross effects only).
* Sizes: local decompositions d<=4 (adaptive: arbitrary unitaries d<=3), two-qudit unitaries 2x2, 2x3, 3x2; three-line gates are not supported by the compile passes and are not claimed.
* The adaptive search with full costs explodes for several generic angles at d=3: quick uses constant-cost instances there (`/c`), thorough the real cost where it finishes.
* Observed but outside the claims: custom matrices without a saved file are not importable; compiling lines of smaller dimension than the backend's graph may raise; a gate object occurring twice in a circuit is merged; out-of-range control level of CEx is silently the identity; noise probabilities are not validated; random unitary gates cannot be read back from QASM; result labels are ambiguous from dimension 11 on; the variational search returns an empty list if no layer reaches the tolerance, an unknown ansatz type never ends; `MISim` ignores controls; the S gate exists only for prime dimensions.
* P29: floating-point noise inside the decision-diagram package (values within the 1e-13 tolerance of each other, collisions in hash buckets) is outside; table sizes are never exhausted in the bounded circuits, so garbage collection is only entered as far as the code does so there; controls of single-qudit gates are ignored by the C++ code (known finding; inserting them makes test_pymisim take longer than its time limit, so it is recorded and not repaired).
* Not covered: the HDF5/npy writer of results (`save_info`), provider name filters, convergence of dual annealing, plotting back ends (replaced by a recorder).
"""
