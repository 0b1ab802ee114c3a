"""Titles, statements and anchors of all properties; gen.py writes properties.jsonl and MANIFEST.json from here."""
Q = "src/mqt/qudits/"
GA = Q + "quantum_circuit/gates/"
QC = Q + "quantum_circuit/"
CO = Q + "compiler/"
MF = Q + "quantum_circuit/components/extensions/matrix_factory.py"

TECH = "symbolic execution of the real Python code (exact symbolic numbers), assertions and path conditions discharged by z3; counterexamples replayed on the unpatched code"

P = [
 dict(id="P01", title="Single-qudit gates have exactly their documented matrix",
  statement="For every qudit dimension, level pair (in either order) and real angle, each single-qudit gate (two-level rotation, phase rotation, virtual phase, two-level Hadamard-like gate, generalized X, Z, H and S, permutation, two-level noise X/Y/Z, custom and generalized Gell-Mann matrices) reports exactly the operator its documentation defines: the two-level rotations act only on the two named levels, with the documented signs and phases, and nothing else.",
  over=["inputs"], q="all angles (reals in a range covering several periods), all level pairs and permutations, dimensions 2..7",
  why="Tests compare a few gates at a few angles in dimension 2 to 5; the matrices are functions of a continuous angle with branches on levels and ranges.",
  files=[GA + x for x in ("r.py", "rz.py", "rh.py", "virt_rz.py", "h.py", "x.py", "z.py", "s.py", "perm.py", "gellmann.py", "noise_x.py", "noise_y.py", "custom_one.py")],
  mech=[("gate matrices", GA), ("angle regulation", CO + "compilation_minitools/local_compilation_minitools.py")]),
 dict(id="P02", title="Two-qudit gates have exactly their documented matrix on mixed dimensions",
  statement="For every pair of qudit dimensions, either order of the two lines, every level choice and every angle in the accepted range, the controlled exchange, the controlled sum, the light-shift gate, the Molmer-Sorensen gate and custom two-qudit and multi-qudit gates report exactly the operator their documentation defines. The controlled gates act when the first listed line holds the control level, whichever of the two lines comes first in the register.",
  over=["inputs"], q="dimension pairs from 2..5, both line orders, all levels, all angles in [0, 2pi]",
  why="Tests use a few equal dimensions and one angle; wrong ordering or wrong phase shows only for particular mixed dimensions, orders or angles.",
  files=[GA + x for x in ("cx.py", "csum.py", "ls.py", "ms.py", "custom_two.py", "custom_multi.py")], mech=[("gate matrices", GA)]),
 dict(id="P03", title="Inverting a gate gives the conjugate transpose, inverting twice restores it",
  statement="Marking any gate as inverted makes the operator it reports, on its own lines and on the whole register, the conjugate transpose of what it was, and doing it twice restores the original operator. Gate followed by its inverse is the identity for every parameter choice of the unitary gates, and inverting one gate does not change the gates it was copied from or copied to.",
  over=["inputs", "histories"], q="every gate kind, symbolic parameters, with and without controls, sequences of up to 3 inversions and copies",
  why="Tests invert two gate kinds at fixed parameters; the flag, names and matrices interact over sequences of calls.",
  files=[QC + "gate.py", MF], mech=[("dag / to_matrix", QC + "gate.py")]),
 dict(id="P04", title="A gate acts on its own lines and as the identity elsewhere",
  statement="For every register of mixed dimensions and every set of lines, the operator a gate reports for the whole register equals its own operator on those lines (in ascending line order) and the identity on all others, with the first line the most significant digit; the reports for the gate alone and for the spanned lines are the corresponding restrictions.",
  over=["inputs", "configurations"], q="registers of 1..4 lines with dimensions 2..4, all line subsets in every order, arbitrary complex gate matrices",
  why="Tests embed fixed gates into two or three registers; index arithmetic over mixed dimensions fails only for particular line gaps and dimension patterns.",
  files=[MF, QC + "gate.py"], mech=[("wrap_in_identities / apply_identites_and_controls", MF)]),
 dict(id="P05", title="Control lines condition a gate on exactly the given levels",
  statement="A gate with control lines applies its operator exactly on the basis states in which every control line holds its control level and is the identity on all others, wherever controls and target lie and in whatever order they are listed. Control lists are accepted exactly when lines exist, are distinct from the target, and the levels fit the dimension of their line.",
  over=["inputs", "configurations"], q="registers of 2..4 lines, 1..3 controls in any order, all levels; validation over symbolic lines and levels",
  why="Tests use one or two fixed control configurations, mostly with equal dimensions.",
  files=[MF, QC + "gate.py", QC + "components/extensions/controls.py"], mech=[("control handling", QC + "gate.py"), ("apply_identites_and_controls", MF)]),
 dict(id="P06", title="Gate parameters are rejected or give a unitary of the right size",
  statement="Every gate constructor either rejects its parameters with an error or yields a gate whose matrix is unitary and of exactly the dimension of its lines. Valid levels and angles are accepted, and levels outside the qudit's dimension, equal levels, non-permutations and out-of-range angles are rejected.",
  over=["inputs"], q="levels symbolic in [-2, d+1], dimensions 2..6, angles in several periods",
  why="Tests try a handful of parameter lists; acceptance and unitarity must agree over the whole parameter space.",
  files=[GA + x for x in ("r.py", "rz.py", "rh.py", "virt_rz.py", "perm.py", "cx.py", "ls.py", "ms.py", "noise_x.py", "noise_y.py")], mech=[("validate_parameter", GA)]),
 dict(id="P07", title="Circuits keep registers, line numbers and gates in the order they were given",
  statement="Registers appended to a circuit occupy consecutive lines in order of appending, with their own dimensions, and register elements resolve to those lines; classical registers likewise. Gates are recorded exactly once, in order, on the lines they were given; replacing a gate splices the new ones in its place, and a copy of a circuit is independent of the original.",
  over=["histories", "inputs"], q="up to 3 registers of 1..3 lines in every order, symbolic dimensions; up to 4 gates",
  why="Tests build one or two register layouts; offsets and shared state go wrong only for later registers or after copies.",
  files=[QC + "circuit.py", QC + "components/quantum_register.py", QC + "components/classic_register.py"], mech=[("append / sitemap", QC + "circuit.py")]),
 dict(id="P08", title="Writing a circuit to QASM and reading it back gives the same circuit",
  statement="Exporting any circuit of parameterized gates to the text format and importing the text gives a circuit with the same registers, the same gates on the same lines with the same control lines and levels, and the same operators, also when the text goes through a file. Programs with comments, blank lines, pi-expressions and several registers are read with their stated meaning, and unknown lines are rejected.",
  over=["programs", "inputs"], q="circuits of 1..4 gates over 1..3 registers, every gate kind with and without controls, symbolic angles and levels",
  why="Tests read a few fixed texts; the round trip must hold for every gate kind, register layout, control list and real angle.",
  files=[QC + "qasm.py", QC + "circuit.py", QC + "gate.py"], mech=[("parser", QC + "qasm.py"), ("__qasm__", QC + "gate.py"), ("to_qasm/from_qasm", QC + "circuit.py")]),
 dict(id="P09", title="Angle reductions keep the rotation they describe",
  statement="Reducing an angle to the hardware range gives an equivalent angle inside the documented range for every real input, and a rotation built from the reduced angle equals the original one up to a sign; the cost of a rotation is non-negative, symmetric in the direction of rotation, and never smaller for the long way round.",
  over=["inputs"], q="angles in [-12pi, 12pi] including all range boundaries",
  why="Tests check a handful of angles; the reductions branch on sign, range and multiples of pi.",
  files=[CO + "compilation_minitools/local_compilation_minitools.py", CO + "compilation_minitools/numerical_ansatz_utils.py"], mech=[("regulate_theta, new_mod, pi_mod, phi_cost, theta_cost", CO + "compilation_minitools/")]),
 dict(id="P10", title="Logical local decomposition reproduces every single-qudit unitary",
  statement="For every single-qudit unitary, the logical QR and adaptive passes return two-level rotations and phase rotations whose product, applied in order, equals the unitary exactly. Rotations act only on levels the passes are allowed to couple, the energy-level graph of the backend is left unchanged, and other gates of the circuit are kept in place.",
  over=["inputs"], q="unitaries given as products of symbolic rotations and phases in all zero/non-zero patterns, dimensions 2..4",
  why="Tests decompose fixed gates and random matrices; degenerate entries take other branches and are measure zero under random sampling.",
  files=[CO + "onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py", CO + "onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py"],
  mech=[("QrDecomp", CO + "onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py"), ("LogAdaptiveDecomposition", CO + "onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py")]),
 dict(id="P11", title="Physical QR decomposition reproduces the unitary on allowed couplings only",
  statement="For every single-qudit unitary and every connected energy-level graph with any placement of logical levels, the physical QR pass returns a sequence of rotations and phases whose product is the unitary mapped to physical levels exactly, in which every two-level rotation drives a transition of the graph. The placement and the graph are as before afterwards.",
  over=["inputs", "configurations"], q="symbolic unitaries in all zero patterns, dimensions 2..4, path, star and cyclic graphs, all placements",
  why="Tests use one graph per dimension; routing sequences depend on the interplay of graph, placement and zero pattern.",
  files=[CO + "onedit/mapping_aware_transpilation/phy_local_qr_decomp.py", CO + "onedit/local_operation_swap/swap_routine.py"],
  mech=[("PhyQrDecomp", CO + "onedit/mapping_aware_transpilation/phy_local_qr_decomp.py"), ("gate_chain_condition, find_logic_from_phys", CO + "onedit/local_operation_swap/swap_routine.py")]),
 dict(id="P12", title="Physical adaptive decomposition reproduces the unitary between placements",
  statement="For every single-qudit unitary, every connected energy-level graph and every placement, the physical adaptive pass returns a sequence whose product equals the unitary taken from the placement before to the placement it reports afterwards, using only transitions of the graph. Its cost never exceeds that of the plain QR decomposition and the reported final placement is a permutation of the levels.",
  over=["inputs", "configurations"], q="symbolic unitaries (dimension 2..3) in all zero patterns, path, star and cyclic graphs, all placements",
  why="Tests use fixed gates on one graph; the search explores rotations, swaps and phase bookkeeping whose combination differs per input.",
  files=[CO + "onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py", Q + "core/dfs_tree.py", Q + "core/level_graph.py"],
  mech=[("PhyAdaptiveDecomposition", CO + "onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py")]),
 dict(id="P13", title="Controlled-rotation and swap building blocks equal their target operators",
  statement="The building blocks for two-qudit compilation - controlled rotation between two levels of the target, controlled phase rotation, and partial swap - expand into elementary gates whose product equals the controlled operator they stand for, for every angle and phase, every choice of levels and every dimension pair.",
  over=["inputs"], q="all angles and phases, all level choices, dimension pairs from 2..4",
  why="Tests check one angle for few dimensions.",
  files=[CO + "twodit/blocks/crot.py", CO + "twodit/blocks/pswap.py", CO + "twodit/blocks/czrot.py"], mech=[("CRotGen / PSwapGen / CZRotGen", CO + "twodit/blocks/")]),
 dict(id="P14", title="Entangling QR compilation reproduces every two-qudit unitary up to phase",
  statement="For every two-qudit unitary - including the built-in two-qudit gates and controlled single-qudit gates on lines in either order - the logical entangling pass returns single-qudit gates and controlled exchanges whose product equals the unitary up to one global phase. Other gates of the circuit stay as they are and in order.",
  over=["inputs", "programs"], q="two-qubit and qubit-qutrit unitaries as products of symbolic two-level rotations in all zero patterns, plus all built-in gates for dimension pairs from 2..4",
  why="Tests compile a few fixed or random matrices; equal-dimension inputs hide ordering errors and random inputs never hit degenerate patterns.",
  files=[CO + "twodit/entanglement_qr/log_ent_qr_cex_decomp.py"], mech=[("EntangledQRCEX", CO + "twodit/entanglement_qr/log_ent_qr_cex_decomp.py")]),
 dict(id="P15", title="Compilation to a backend preserves the circuit's operator",
  statement="Compiling a circuit for a backend at any optimization level gives a circuit that, after undoing the reported level placement, implements the same operator up to a global phase, and compiles local gates to rotations on transitions the backend offers and phases. The circuit given as input is left unchanged, and so is the backend, so that compiling again gives an equivalent result.",
  over=["programs", "inputs", "configurations"], q="circuits of 1..3 gates with symbolic angles, levels 0, 1 and 2, the built-in backends",
  why="Tests compile a few fixed circuits and compare states; each pass has its own convention and only compositions with particular gates expose a mismatch.",
  files=[CO + "dit_compiler.py", CO + "twodit/entanglement_qr/phy_ent_qr_cex_decomp.py", CO + "onedit/mapping_aware_transpilation/", CO + "onedit/local_phases_transpilation/"],
  mech=[("QuditCompiler", CO + "dit_compiler.py")]),
 dict(id="P16", title="Moving phase rotations through a circuit preserves its operator",
  statement="Propagating phase rotations towards the front or the back of a circuit gives a circuit with the same operator, up to one global phase, for every mixture of rotations, phase rotations, controlled and two-qudit gates on any lines. The number of other gates and their order per line is unchanged.",
  over=["programs", "inputs"], q="sequences of up to 5 gates on 1..2 lines with symbolic angles",
  why="Tests propagate through two fixed sequences.",
  files=[CO + "onedit/local_phases_transpilation/propagate_virtrz.py"], mech=[("ZPropagationOptPass", CO + "onedit/local_phases_transpilation/propagate_virtrz.py")]),
 dict(id="P17", title="Removing phase rotations keeps all outcome probabilities",
  statement="Removing phase rotations at the start and the end of a circuit leaves the probability of every measurement outcome from the ground state unchanged, for every circuit, and removes nothing but phase rotations.",
  over=["programs", "inputs"], q="sequences of up to 5 gates on 1..3 lines, including controlled gates, symbolic angles",
  why="Tests use fixed circuits without controls on other lines.",
  files=[CO + "onedit/local_phases_transpilation/remove_phase_rotations.py"], mech=[("ZRemovalOptPass", CO + "onedit/local_phases_transpilation/remove_phase_rotations.py")]),
 dict(id="P18", title="Regrouping a circuit by lines and fusing local gates preserve its operator",
  statement="The per-line view of a circuit contains every gate once on each line it touches, in order, and flattening it again gives an equivalent order of the same gates. Fusing runs of single-qudit gates into one gives a circuit with the same operator, never moving a gate across another that shares a line with it.",
  over=["programs", "inputs"], q="sequences of up to 6 gates on 1..3 lines, including controlled and two-qudit gates",
  why="Tests use two fixed circuits.",
  files=[Q + "core/lanes.py", CO + "naive_local_resynth/local_resynth.py"], mech=[("Lanes", Q + "core/lanes.py"), ("NaiveLocResynthOptPass", CO + "naive_local_resynth/local_resynth.py")]),
 dict(id="P19", title="Routing on the energy-level graph respects couplings and placements",
  statement="For every connected energy-level graph and placement, swapping two nodes exchanges exactly the logical levels placed on them, routing a rotation between two logical levels produces swaps along allowed transitions that leave them neighbouring and undoes to the original placement, and the cost it assigns follows the length of that route. Phases stored on nodes follow their level.",
  over=["configurations", "histories"], q="all connected graphs on up to 4 (thorough 5) nodes, all placements, symbolic weights and phases",
  why="Tests route on one graph of each size.",
  files=[Q + "core/level_graph.py", CO + "onedit/local_operation_swap/swap_routine.py"], mech=[("LevelGraph", Q + "core/level_graph.py"), ("route_states2rotate_basic, cost_calculator, gate_chain_condition", CO + "onedit/local_operation_swap/swap_routine.py")]),
 dict(id="P20", title="The decomposition search tree returns the cheapest finished branch",
  statement="For every tree of decomposition steps, retrieving the result returns a root-to-leaf path ending in a finished node, with the minimal accumulated cost among all finished nodes, in order from the root; if no node is finished an error is raised or nothing returned. Node counts and depths match the tree.",
  over=["inputs", "histories"], q="all trees up to 7 nodes, symbolic costs and finished flags",
  why="Tests build one tree with fixed costs.",
  files=[Q + "core/dfs_tree.py"], mech=[("NAryTree.retrieve_decomposition", Q + "core/dfs_tree.py")]),
 dict(id="P21", title="Noisy circuits keep the ideal gates and add only the described errors",
  statement="The noisy version of a circuit contains the ideal gates in order, and after each only errors of the kind and on the lines the noise model names for that gate and mode, each combination of errors with the probability the model gives it; with all probabilities zero it is the original circuit. The original circuit is left unchanged, and modes that do not apply to a gate or levels outside the qudit are rejected.",
  over=["inputs", "fault_sequences"], q="symbolic probabilities and symbolic random draws, circuits of up to 3 gates, every mode",
  why="Tests sample a few shots and compare averages; particular draws and modes are not reached.",
  files=[Q + "simulation/noise_tools/noisy_circuit_factory.py", Q + "simulation/noise_tools/noise.py"], mech=[("NoisyCircuitFactory", Q + "simulation/noise_tools/noisy_circuit_factory.py")]),
 dict(id="P22", title="State preparation produces the requested state",
  statement="For every normalized target state on a register of mixed dimensions, the state preparation routine returns a circuit that takes the ground state to the target up to a global phase, whatever amplitudes are zero or equal; with the approximation switched on, the fidelity with the target is at least 0.99, the accuracy the approximation is documented to have. The generators of GHZ and W states give the states of that name on every register.",
  over=["inputs"], q="symbolic amplitudes in all zero patterns for registers up to total dimension 8",
  why="Tests prepare GHZ, W and random states; zero and equal amplitudes take other branches.",
  files=[CO + "state_compilation/state_preparation.py", CO + "state_compilation/retrieve_state.py", Q + "core/micro_dd.py"], mech=[("StatePrep", CO + "state_compilation/state_preparation.py")]),
 dict(id="P23", title="The decision tree of a state represents exactly its amplitudes",
  statement="Building the decision tree of a state gives, along the path of every basis state, weights whose product is the amplitude of that state; the weights below a node are normalized, so that the weight of the root is the norm of the state. Merging of equal subtrees changes no amplitude. The contributions of the nodes are the probabilities of the basis states through them. Cutting branches under a tolerance leaves every other amplitude as it was, and the total probability removed stays under the tolerance.",
  over=["inputs"], q="symbolic amplitudes in all zero patterns, dimension vectors with product up to 12",
  why="Tests build two or three fixed states.",
  files=[Q + "core/micro_dd.py"], mech=[("create_decision_tree, normalize_all, dd_reduction", Q + "core/micro_dd.py")]),
 dict(id="P24", title="Reduced states and result remapping match their definitions",
  statement="The density matrix, the partial trace over any set of lines, and the remapping of physical results to logical levels equal their textbook definitions for every state, register and placement: the partial trace keeps its lines in register order, and remapping a result obtained in the compiled placement gives the result of the logical circuit.",
  over=["inputs", "configurations"], q="arbitrary complex states on registers of 1..3 lines with dimensions 2..4, all kept-line sets, all placements",
  why="Tests compute one or two reduced states.",
  files=[Q + "visualisation/mini_quantum_information.py", Q + "visualisation/plot_information.py"], mech=[("partial_trace, get_density_matrix_from_counts, remap_result", Q + "visualisation/")]),
 dict(id="P25", title="Tensor-network simulation applies the gates' operators in order",
  statement="Simulating any circuit with the tensor-network backend returns the vector obtained by applying the operators of the gates in order to the ground state, with the first line as most significant digit, for every gate arity, control pattern and mixture of dimensions.",
  over=["programs", "inputs"], q="circuits of up to 3 gates on 1..3 lines with arbitrary complex gate matrices",
  why="Tests compare a few fixed circuits.",
  files=[Q + "simulation/backends/tnsim.py"], mech=[("__contract_circuit, __apply_gate", Q + "simulation/backends/tnsim.py")]),
 dict(id="P26", title="Distance and fidelity measures have their defining properties",
  statement="The fidelity measures between operators, unitaries, density operators and state vectors equal their defining overlap formulas (absolute trace overlap over the norms or the dimension, squared absolute inner product) for every input: full fidelity for operators equal up to a global phase, symmetric in their arguments, unchanged by a global phase, and inputs of different or non-square shapes are rejected. The norms and the objective the sparsifier minimises equal their formulas.",
  over=["inputs"], q="arbitrary complex matrices and vectors of dimension 2..4",
  why="Tests evaluate two or three pairs.",
  files=[CO + "twodit/variational_twodit_compilation/opt/distance_measures.py"], mech=[("fidelity_on_operator, fidelity_on_unitares, frobenius_dist, density_operator, size_check", CO + "twodit/variational_twodit_compilation/opt/distance_measures.py")]),
 dict(id="P27", title="Parametrized ansatz layers build unitaries from their parameters in order",
  statement="The single-qudit ansatz of the variational compiler is the product, in its stated order, of the elementary rotations of its parameters and unitary for every parameter vector; layered ansatze alternate local unitaries and the chosen primitive in the stated order, each parameter used once, with as many search bounds as parameters. Converting an instantiated ansatz to gates, and instantiating the rotations of the sparsifier, gives gates with the same operator as the one whose objective was minimised. The layer search returns a number of layers with parameters that were found for it and whose error it reports, and leaves no timer behind.",
  over=["inputs"], q="symbolic parameters in the documented bounds, dimensions 2..3, up to 2 layers, every primitive",
  why="Tests evaluate fixed parameter vectors.",
  files=[CO + "twodit/variational_twodit_compilation/ansatz/", CO + "twodit/variational_twodit_compilation/parametrize.py"], mech=[("generic_sud, cu_ansatz, ms_ansatz, ls_ansatz", CO + "twodit/variational_twodit_compilation/")]),
 dict(id="P28", title="The decomposition verifier accepts exactly the correct decompositions",
  statement="The verifier that compares a list of gates with a target operator, under given placements before and after, accepts when the product of the gates equals the target between the placements up to a global phase and rejects when it differs noticeably, for every gate list, target and placement, without changing its inputs; the small circuit simulators give the product of the gates' operators and its first (or placed) column.",
  over=["inputs", "configurations"], q="symbolic rotations and targets, dimensions 2..3, all placements",
  why="Tests call it on correct decompositions only.",
  files=[CO + "compilation_minitools/naive_unitary_verifier.py"], mech=[("UnitaryVerifier.verify", CO + "compilation_minitools/naive_unitary_verifier.py")]),
 dict(id="P30", title="Every shot of a noisy simulation is drawn independently and with the right odds",
  statement="A noisy simulation with n shots runs n circuits with errors drawn for each, whatever the division of the shots among processes: two shots never share random numbers, also when they start within one tick of the clock or in the same process; the results are one per shot, a shot's outcome is a basis state drawn with the probabilities of its own final vector, and the requested circuit is left as it was. With the full vectors requested, one vector per shot is returned and none is overwritten by another.",
  over=["inputs", "schedules", "fault_sequences"], q="up to 4 shots with every division into chunks, assignment to two worker processes and clock, arbitrary final vectors of up to 4 amplitudes",
  why="Tests run a few hundred shots and compare averages loosely; shared random numbers keep the averages of single lines plausible.",
  files=[Q + "simulation/backends/stochastic_sim.py", Q + "simulation/noise_tools/noisy_circuit_factory.py"], mech=[("stochastic_simulation, stochastic_execution, measure_state", Q + "simulation/backends/stochastic_sim.py")]),
 dict(id="P31", title="Jobs end waiting at final states and every run uses exactly its own options",
  statement="Waiting for a job ends with the first final status (done, cancelled or error) or when the time is over, with the callback called for every other status seen; status queries agree with the status, and every job has its own id. A run of a backend uses the options given to it, else those stored for the backend through its options, else the defaults; options of one run never reach another run or another backend; noise is simulated exactly when a noise model is given, with the given number of shots.",
  over=["histories", "configurations"], q="status histories of up to 4 polls with arbitrary clock readings and time-outs; two runs with every combination of options given or not",
  why="Tests wait for jobs that are done at once and run every backend object once.",
  files=[Q + "simulation/jobs/job.py", Q + "simulation/jobs/jobstatus.py", Q + "simulation/backends/backendv2.py", Q + "simulation/backends/tnsim.py", Q + "simulation/backends/misim.py", Q + "simulation/backends/innsbruck_01.py"], mech=[("Job.wait_for_final_state", Q + "simulation/jobs/job.py"), ("Backend options, run", Q + "simulation/backends/")]),
 dict(id="P29", title="The decision-diagram simulator applies each gate it knows and refuses the others",
  statement="For a circuit of x, z, h, s, rh, r, rz and virtrz (levels in ascending order), cx and csum gates, inverted or not, on any register of lines of dimension 2 to 7, misim returns the vector obtained by applying the operators of the gates, their controls included, in order to the zero state, with line 0 as the most significant digit. Any other gate, order of levels or dimension gives that vector too or is refused with an error, and never gives a wrong state or a crash. With a noise model, the error of an entry follows exactly the gates it names: a depolarising error is a shift X, a dephasing error a Z, on every line of the entry's mode (for r, rz and virtrz a rotation by pi of the gate's own levels); an error of probability zero never happens and one of probability one always does.",
  over=["programs", "inputs", "configurations"], q="registers of one line of dimension 2..7 and of two to four lines, up to 4 gates with all pairs of levels and up to two symbolic angles",
  why="Tests simulate a few circuits with fixed angles and compare some of them with nothing; rotations that fall into one unique-table bucket, unusual levels and reversed lines are not among them.",
  files=["src/python/bindings.cpp", "include/dd/MDDPackage.hpp", "include/dd/GateMatrixDefinitions.hpp", Q + "simulation/backends/misim.py"], mech=[("getGate, generateCircuit, ddsimulator", "src/python/bindings.cpp"), ("MDDPackage", "include/dd/MDDPackage.hpp")]),
]
NA = {}
NOTES = {}
