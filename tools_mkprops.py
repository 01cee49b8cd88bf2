"""Writes properties.jsonl (kept as a script so that the list stays consistent)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    over=[{"input":"inputs","history":"histories","fault":"fault_sequences","schedule":"schedules"}[o] for o in over]
    if state: a["state"]=[{"name":state,"meaning":state}]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
C = "src/mqt/qecc/codes/"
p("C01", "Only consistent quantum codes are accepted",
  "Building a code from stabilizer generators, check matrices and logical operators succeeds exactly when the data describe a consistent code: equal lengths, pairwise commuting generators, X checks orthogonal to Z checks, and logical operators that commute with all generators, number at most k and pair up by anticommutation. Everything else is rejected with the library's invalid-code error, and for accepted codes n is the number of qubits and k equals n minus the number of independent generators.",
  ["input"], "all check matrices / generator lists / logical operators up to the stated sizes",
  "tests feed a handful of bad matrices; a weakened check (a wrong transpose, a dropped modulo, one missing comparison) only shows on matrices the tests do not contain",
  [C+"stabilizer_code.py", C+"css_code.py"], [("constructor validation", C+"stabilizer_code.py:StabilizerCode.__init__/_check_code_correct"), ("CSS validation", C+"css_code.py:CSSCode._check_valid_check_matrices")], "constructors")
p("C02", "Logical operators of a CSS code are a complete set of logicals",
  "For every CSS code the library computes exactly k X-type and k Z-type logical operators; X logicals commute with every Z check, Z logicals with every X check, and together with the stabilizers of their own type they are linearly independent. This also holds for codes given only X or only Z checks and for redundant or unordered check matrices.",
  ["input"], "all small check-matrix pairs (symbolic entries) and all codes shipped with or constructed by the library",
  "tests look at a few codes with one logical qubit; wrong logicals appear for redundant rows, several logical qubits or missing check types",
  [C+"css_code.py"], [("logical computation", C+"css_code.py:CSSCode._compute_logical")], "code.Lx / code.Lz")
p("C03", "Syndromes and logical-error verdicts reflect commutation",
  "The syndrome reported for an error has exactly one bit per generator, set iff the error anticommutes with that generator, whether the error is given as text, as bits, or as separate X and Z parts. For a residual that has zero syndrome, the X/Z logical-error verdict of a CSS or colour code is true exactly when the residual acts non-trivially on the code space, and stabilizers are recognised as such exactly when they are products of checks.",
  ["input"], "all errors and residuals on each code in the instance set (symbolic), and symbolic generators for small n",
  "tests compute a few syndromes; the space is 4^n errors per code",
  [C+"stabilizer_code.py", C+"css_code.py", C+"color_code.py"], [("syndrome", "StabilizerCode.get_syndrome, CSSCode.get_x_syndrome/get_z_syndrome, ColorCode.get_syndrome"), ("logical predicates", "CSSCode.check_if_logical_*_error, ColorCode.check_if_logical_error, CSSCode.check_if_*_stabilizer")])
p("C04", "Error equivalence and code equality are exact",
  "Two errors are reported as equivalent iff their product is (up to phase) a product of the code's stabilizers of the given type; in particular the relation is reflexive, symmetric and transitive. Two codes compare equal iff they have the same stabilizer group, equal codes have equal hashes, and a CSS code is reported self-dual iff its X and Z checks generate the same space.",
  ["input"], "all pairs of errors on the instance codes; all pairs of small generator sets",
  "tests compare one equivalent and one inequivalent pair; asymmetric or rank-based mistakes need particular pairs",
  [C+"stabilizer_code.py", C+"css_code.py", C+"color_code.py"], [("equivalence", "StabilizerCode.stabilizer_equivalent, CSSCode.stabilizer_eq_x_error/_z_error"), ("equality and hash", "StabilizerCode.__eq__/__hash__, ColorCode.__eq__/__hash__"), ("self-duality", "CSSCode.is_self_dual")])
p("C05", "Pauli text and bit representations agree",
  "Converting a Pauli operator with optional sign from text to bits and back is the identity, the bits are the X part, Z part and sign in that order, and exactly the strings over I, X, Y, Z with an optional leading sign are accepted as Pauli text. Commutation of two operators computed from bits equals commutation of the operators, and check lists printed as text describe exactly the rows of the check matrices.",
  ["input"], "all Pauli strings up to length 5 with or without sign, all character strings over a small alphabet, all bit vectors",
  "tests print a few strings; sign and length handling depends on unusual inputs",
  [C+"stabilizer_code.py", C+"css_code.py"], [("conversion", "pauli_to_binary, binary_to_pauli_string, is_pauli_string, get_n_qubits_from_pauli"), ("commutation", "commute, anti_commute, all_commute, symplectic_*")])
p("C06", "Code families have the advertised parameters",
  "Every code the library offers by name or by distance (Steane, tetrahedral, Hamming, Shor, Carbon, rotated surface, Golay, hexagonal and square-octagon colour codes, bivariate bicycle codes) is a valid code with the documented number of physical and logical qubits, and its declared distances are exactly the minimum weights of non-trivial logical operators.",
  ["input"], "all logical operators below/at the declared weight, per code",
  "tests check shapes; a distance is a statement about all 2^n operators",
  [C+"css_code.py", C+"bb_codes.py", C+"hexagonal_color_code.py", C+"square_octagon_color_code.py"], [("named codes", "CSSCode.from_code_name"), ("BB codes", "construct_bb_code"), ("colour codes", "HexagonalColorCode, SquareOctagonColorCode")])
p("C07", "The MaxSAT decoder returns a minimum-weight correction",
  "For every syndrome of a supported colour code the decoder's correction reproduces exactly that syndrome and no correction of smaller weight does. The answer for a syndrome does not depend on which syndromes were decoded before with the same decoder object.",
  ["input", "history"], "all syndromes (symbolic lights), all previously decoded syndromes",
  "tests decode one syndrome; optimality is a statement about all corrections, history independence about call sequences",
  ["src/mqt/qecc/cc_decoder/decoder.py"], [("constraint construction", "LightsOut.preconstruct_*/complete_parity_constraint"), ("solve", "LightsOut.solve")], state="z3 optimizer shared between calls")
F = "src/mqt/qecc/ft_stateprep/"
p("C08", "State preparation circuits prepare the logical basis state",
  "Every synthesized preparation circuit (heuristic, depth-optimal or gate-optimal, with or without verification) maps the all-zero input to the requested state: all X and Z stabilizers of the code and all logical Z (for zero) or logical X (for plus) operators have value +1 on the data qubits, for every outcome of the measurements that is not discarded, and fault-free verification measurements and flags always give 0.",
  ["input"], "all stabilizers/logicals of the prepared state, all random measurement outcomes, for each code / option in the instance set",
  "tests compare a rank for some codes; a wrong sign or one wrong gate on one option combination escapes",
  [F+"state_prep.py"], [("synthesis", "heuristic_prep_circuit, gate_optimal_prep_circuit, depth_optimal_prep_circuit"), ("verification", "naive_verification_circuit, heuristic_verification_circuit, gate_optimal_verification_circuit")])
p("C09", "Fault sets contain every dangerous propagated fault",
  "For a preparation circuit and a number of faults t, the computed set of X (or Z) faults contains, up to stabilizers, every error that t or fewer single-gate faults can cause at the end of the circuit and whose reduced weight exceeds t (times the ratio of correctable errors of that type to the correctable errors of the code, where the two distances differ), and contains nothing that t faults cannot cause. Additional independent faults passed in are combined in the same way. The reduced representative is always a minimum-weight member of its equivalence class.",
  ["input", "fault"], "all placements of up to t faults in the circuit, all coset members",
  "tests compare set sizes on some codes; a missed fault is visible only for particular placements",
  [F+"state_prep.py"], [("fault sets", "StatePrepCircuit.compute_fault_set, compute_fault_sets"), ("propagation", "_propagate_error"), ("reduction", "_coset_leader")])
p("C10", "Verified preparation circuits are fault tolerant",
  "In a verified preparation circuit, any single fault in the preparation or verification part (a Pauli error on the qubits touched by one operation, or one flipped readout) that leaves all verification and flag outcomes 0 leaves an error on the data qubits that is, up to stabilizers of the prepared state, of weight at most one per Pauli type; with more allowed faults (up to the number the code corrects, or half its distance for detection codes), j undetected faults leave weight at most j, scaled for the type with the larger distance. Without full fault tolerance this holds for the type that can cause a logical error (X for the zero state, Z for the plus state).",
  ["fault", "input"], "all fault locations and Pauli types, all outcomes",
  "tests check specific circuits' measurement counts; fault tolerance quantifies over all fault patterns",
  [F+"state_prep.py"], [("verification synthesis", "verification_stabilizers, heuristic_verification_circuit, gate_optimal_verification_circuit"), ("circuit", "_measure_ft_stabs, _measure_ft_x/_z, _vertex/hook handling")])
p("C11", "Flagged stabilizer measurements measure the right operator and flag hook errors",
  "For every supported weight and fault budget t, a stabilizer-measurement gadget with flags reports exactly the parity of the requested X- or Z-type operator, leaves other commuting observables untouched, and with no faults never raises a flag. Any t or fewer faults that raise no flag leave a data error that is equivalent, modulo the measured operator, to an error of weight at most the number of faults.",
  ["fault", "input"], "all fault placements (symbolic), all supported weights",
  "tests run a few weights by sampling; the guarantee is over all fault combinations",
  [F+"state_prep.py"], [("gadgets", "measure_stab_unflagged, measure_flagged, measure_one_flagged, measure_two_flagged, w_flag pattern")])
p("C12", "Lookup-table decoding is minimum weight and complete",
  "For every syndrome of the code the lookup decoder returns a correction that has that syndrome and the smallest possible weight, for X and for Z errors, with tables built on construction or on first use, including codes whose check matrices are redundant, ordered differently or equal for both types.",
  ["input"], "all errors/syndromes of the instance codes, small symbolic check matrices",
  "tests decode a few errors of self-dual codes",
  [F+"simulation.py"], [("lookup decoder", "LutDecoder")])
p("C13", "The noisy preparation simulator counts exactly what the circuit does",
  "The simulated circuit is the given preparation circuit with noise added after operations and nothing else: with zero noise every run is accepted and no logical error is counted. Acceptance uses exactly all verification and flag outcomes, and a logical error is counted exactly when the decoded residual flips a logical observable of the prepared state.",
  ["input", "schedule"], "all measurement/noise outcomes of the simulated circuit (symbolic)",
  "tests sample error rates with wide tolerances",
  [F+"simulation.py"], [("simulator", "NoisyNDFTStatePrepSimulator")])
p("C14", "GF(2) linear algebra in the C++ core is exact",
  "Rank, row-space membership, solving a linear system, matrix products, transposition and conversion to column form over GF(2) agree with their mathematical definition for every matrix and vector: a vector is reported in the row space iff it is a sum of rows, a solution returned for a consistent system satisfies it. Matrices read from a file are the ones written there, the independent noise sampler draws one bit of the given rate per qubit, and operands of mismatching size are rejected.",
  ["input"], "all matrices and vectors up to the stated size (symbolic entries)",
  "tests use fewer than ten matrices",
  ["src/Utils.cpp", "src/GF2.cpp", "include/Utils.hpp", "include/GF2.hpp"], [("PLU", "GF2.cpp: PluDecomposition"), ("helpers", "Utils.cpp")])
p("C15", "C++ codes report syndromes, stabilizers and parameters correctly",
  "For every error, the syndrome computed by the C++ code object is the parity-check matrix times the error for each check type, in X-then-Z order, and an error is reported as a stabilizer iff it is a sum of the rows of the corresponding check matrix. Neighbours are those of the Tanner graph; files, setters and handing a code to a decoder keep the matrices and their roles; the built-in codes state their true parameters; empty matrices and X and Z checks of different width are rejected on construction.",
  ["input"], "all errors on the built-in codes; small symbolic check matrices",
  "tests check three error vectors per code",
  ["include/Code.hpp", "include/Codes.hpp", "include/Decoder.hpp"], [("code object", "Code::getSyndrome/getXSyndrome/isXStabilizer/isStabilizer"), ("built-in codes", "Codes.hpp"), ("hand-over", "Decoder::setCode")])
p("C16", "Union-find decoders return corrections that match the syndrome",
  "For every error, growth variant and random choice the original union-find decoder terminates with an estimate that has the syndrome of the error, for one error type and for both at once (X part first, then Z part). The heuristic terminates with a well-formed answer; growing all or all invalid components, its estimate has the right syndrome for every single-qubit error of the listed codes and for every error of the Hamming, Shor and distance-3 surface code checks, and unsupported growth variants are rejected. The estimate and the list of estimated qubits agree, and nothing is corrected without a syndrome.",
  ["input", "schedule"], "all errors on the built-in codes, all random choices",
  "tests decode single-qubit errors on one or two codes",
  ["src/UFDecoder.cpp", "src/UFHeuristic.cpp"], [("decoders", "UFDecoder::decode, UFHeuristic::decode")])
p("C17", "Decoders can be reused",
  "Decoding a syndrome with a used decoder object, with or without a reset in between, and also after exchanging its code, gives the same estimate as a fresh object making the same random choices, whatever was decoded before. A reset drops the result and keeps the code and the growth variant, and is possible before a code is set.",
  ["history", "input"], "all pairs of syndromes",
  "tests use each decoder object once",
  ["src/UFDecoder.cpp", "src/UFHeuristic.cpp", "include/Decoder.hpp"], [("reset", "Decoder::reset, UFHeuristic::reset")])
p("C18", "Cluster trees keep union-find invariants",
  "Merging clusters in any order yields a partition in which two vertices have the same root iff they were joined by merges, the root's size is the number of its vertices, its check list holds exactly the check vertices of the cluster, parents and children agree, and find never changes the partition.",
  ["history"], "all sequences of merges/finds up to the bound",
  "tests perform one or two merges",
  ["include/TreeNode.hpp"], [("tree", "TreeNode::Find/Union")])
E = "src/ecc/"
p("C19", "Error-correction encodings preserve the circuit's logical action",
  "For every error-correction scheme, correction frequency and circuit of supported gates, the encoded circuit without errors gives the classical bits of the original circuit exactly the joint distribution the original circuit gives them, for all random ancilla outcomes: with idle qubits, measurements in any order and mapping between qubits and bits, several classical registers, and gates or measurements after a measurement. A gate the scheme does not support (including gates with more controls than supported) is rejected instead of being mapped to something else.",
  ["input", "schedule"], "all Pauli insertions, all ancilla outcomes, all circuits up to the bound over the supported gates",
  "tests compare outcome statistics of fixed circuits",
  [E+"*.cpp", "include/ecc/*.hpp"], [("framework", "Ecc::apply"), ("codes", "Q3Shor, Q5Laflamme, Q7Steane, Q9Shor, Q9Surface, Q18Surface, Id")])
p("C20", "Error-correction codes correct the errors they promise to correct",
  "With each scheme, one error of a kind its code corrects (a bit flip for Q3Shor and Q18Surface, any Pauli error for Q5Laflamme, Q7Steane, Q9Shor and Q9Surface) on any physical data qubit of each logical qubit between two correction steps does not change the distribution of the measured classical bits, for all random ancilla outcomes; after a gate on two qubits the error may sit on one of the two.",
  ["fault", "input"], "all error positions and Pauli kinds, all ancilla outcomes",
  "tests inject a few bit flips and compare sampled counts",
  [E+"*.cpp"], [("correction", "measureAndCorrect of each code")])
A = "src/mqt/qecc/analog_information_decoding/"
p("C21", "Multi-round decoding matrices and windows are consistent",
  "The multi-round check matrix relates data errors in each round, measurement errors and syndrome differences exactly: an error history produces the difference syndromes obtained by multiplying the matrix with the history. Moving the window forward keeps the syndrome information of the next window intact, and the decoded data estimate is the accumulated sum over the accepted rounds. Every window is decoded with the channel configured for it (noise-free syndrome for a perfect last round, the noisy channel otherwise), whatever was decoded before.",
  ["input", "history"], "all error histories within the bound",
  "tests check shapes and one decoding",
  [A+"simulators/memory_experiment_v2.py", A+"simulators/quasi_single_shot_v2.py"], [("matrix", "build_multiround_pcm"), ("window", "move_syndrome, decode_multiround")])
p("C22", "Sampled errors follow the given channel",
  "A sampled data error has an X component on a qubit exactly when the qubit's draw selects X or Y, and a Z component exactly when it selects Z or Y, with draws split by the given X, Y, Z probabilities, and residual errors are added modulo two without losing or double counting; syndrome errors behave the same way. Splitting a rate by a bias gives per-Pauli probabilities that sum to the rate in the given proportions, including infinite bias.",
  ["input", "schedule"], "all random draws, probabilities and residual errors",
  "tests fix seeds or probabilities 0 and 1",
  [A+"utils/simulation_utils.py"], [("sampling", "generate_err, generate_syndr_err"), ("channel", "error_channel_setup")])
p("C23", "Analog, binary and signed syndromes convert consistently",
  "Converting a binary syndrome to signed form and back is the identity, thresholding an analog syndrome maps positive values to 0 and the rest to 1, analog noise is centred on the signed syndrome, and the single-stage and analog-Tanner-graph matrices are the documented block matrices. The conversion between syndrome error rate and analog noise strength and back returns the same rate.",
  ["input"], "all syndromes, noise values and matrices within the bound",
  "tests use a few vectors",
  [A+"utils/simulation_utils.py", A+"simulators/analog_tannergraph_decoding.py"], [("conversion", "get_binary_from_analog, get_signed_from_binary, get_noisy_analog_syndrome"), ("matrices", "build_single_stage_pcm, get_analog_pcm")])
p("C24", "Logical failures are counted exactly",
  "A residual error is counted as a logical failure exactly when it anticommutes with a logical operator (when logicals are given) or when it is a non-trivial syndrome-free residual outside the stabilizers (when only checks are given), and the simulators count a run as success exactly when the decoder's estimate plus the error is not a failure. The simulators hand each decoder the syndrome of the sampled error with the matching matrix and channel, and the counts they return and save are exactly these counts.",
  ["input"], "all errors, all decoder outputs",
  "tests check the predicate on a couple of vectors",
  [A+"utils/simulation_utils.py", A+"simulators/*.py"], [("predicates", "is_logical_err, check_logical_err_h"), ("simulators", "single_sample of each simulator")])
p("C25", "Merging result files pools the data",
  "Merging simulation results gives the sums of runs and successes over all inputs and exactly the rates that a single simulation with these totals would report, independently of the order and grouping of the merged files and without modifying the inputs, for X only, Z only and combined results.",
  ["input", "history"], "all run and success counts, orders and groupings within the bound",
  "tests do not merge files",
  [A+"utils/data_utils.py"], [("merge", "merge_datasets, _merge_datasets_x/_z, _combine_xz_data"), ("rates", "calculate_error_rates, is_converged")])
p("C26", "Product constructions give chain complexes with the right blocks",
  "For any seed matrices the 3D and 4D product constructions return boundary maps of consistent shapes whose consecutive products vanish modulo two, dense and sparse versions agree, inputs that do not form a chain complex are rejected, and the code files written by create_code contain exactly these matrices, a complete set of logicals if requested and the right parameters.",
  ["input"], "all seed matrices up to the stated size (symbolic)",
  "tests do not construct product codes",
  [A+"code_construction/code_constructor.py", A+"code_construction/sparse_code_constructor.py"], [("construction", "generate_3d_product_code, generate_4d_product_code")])
p("C27", "Colour-code simulation results reflect the samples",
  "The logical error rates reported for a colour-code simulation are the fractions of samples whose residual after decoding is a logical error, and the reported minimum weights are the smallest weights among those residuals; the reported times are averages over the samples. The simulation and its command line run exactly the requested code, rate, number of samples, solver and decoder and store its result in the requested folder, in different files for different parameters.",
  ["input", "schedule"], "all sampled errors and decoder answers within the bound",
  "tests run one sample",
  ["src/mqt/qecc/cc_decoder/decoder.py", "src/mqt/qecc/cc_decoder/cli.py"], [("simulation", "simulate_error_rate, run"), ("command line", "cc_decoder/cli.py:cli")])
p("C28", "The C++ decoding simulator reports what its runs did",
  "The word error rate reported per physical error rate is the fraction of runs whose residual error is not a stabilizer, divided by the number of logical qubits, with errors drawn independently at that rate. The statistics file is valid JSON that lists every rate and run with its true outcome, and the runtime simulation reports for each run the average over exactly the samples of that run and writes the decoding information of every sample.",
  ["input", "schedule"], "all errors of all runs within the bound (symbolic noise)",
  "tests run the simulator once and look at nothing",
  ["src/DecodingSimulator.cpp", "include/DecodingRunInformation.hpp"], [("simulation", "DecodingSimulator::simulateWER, simulateAverageRuntime")])
p("C29", "Optimal synthesis of preparation and verification is optimal",
  "A gate-optimal (depth-optimal) preparation circuit has the smallest number of CNOTs (the smallest CNOT depth) among all circuits that prepare the state with Hadamards followed by CNOTs, and none is returned only if none exists within the given maximum. Gate-optimal verification measures for each number of faults products of the stabilizers that detect every dangerous fault, with the smallest total number of CNOTs for at most the given number of measurements, and with the fewest measurements among those. Provided no search hits its time limit.",
  ["input"], "all CNOT circuits / all choices of measured stabilizer products competing with the returned one",
  "tests check the result of two codes for a given number; optimality quantifies over all competing circuits",
  [F+"state_prep.py"], [("preparation", "gate_optimal_prep_circuit, depth_optimal_prep_circuit"), ("verification", "gate_optimal_verification_stabilizers, verification_stabilizers"), ("search", "iterative_search_with_timeout")])
p("C31", "Stored evaluation circuits and the estimation script do what they say",
  "Every stored evaluation circuit prepares the state that its path names, with no unaccepted harmful fault if it is a fault-tolerant one (up to the number of faults the code corrects, of the type that can change the state), and the logical-error-rate script simulates exactly the code, state, circuit, physical error rate and shot limits asked for: the stored circuit if there is one, a freshly synthesised one otherwise, and without verification when asked to.",
  ["input"], "all fault combinations of all stored circuits; all combinations of options and of files present",
  "tests never load the stored circuits or run the script",
  [F+"eval/circuits/**", F+"eval/estimate_logical_error_rate.py"], [("circuits", "eval/circuits"), ("script", "main")])
p("C30", "The ECC wrapper simulates the requested noise and reports the counts",
  "The noise model made for a string of error letters and a rate is the composition of the named channels in the given order at that rate, independently on each operand of the listed one-, two- and three-qubit gates, and unknown letters are refused. The reported probabilities are the fractions of shots per outcome of the first classical register, in order, those above the threshold and at least one. The command line maps the circuit with the requested code and frequency (or none), measures circuits without measurements, exports the mapped circuit instead of simulating it on request, and passes rate, shots, seed and simulator on unchanged.",
  ["input"], "all error strings, all rates (symbolic), all counts and option combinations within the bound",
  "tests run the wrapper for a few option lists and check a few outcomes",
  ["src/mqt/qecc/ecc_qiskit_wrapper.py"], [("noise", "create_noise_model, compose_error"), ("report", "print_simulation_results"), ("command line", "main")])
p("C32", "Evaluation figures show the stored results",
  "The figures of the colour-code evaluation (generate_plots, generate_plots_tn, generate_plots_comp and their command line) show the results stored in the given folder, whichever files exist and in whatever order they are found: for every distance one labelled curve of the failure rates (with error bars for the MaxSAT figure) and one of the average times over the error rate, ordered by rate; for each selected rate a curve over exactly the distances that have a result for it; the panels of a logical, and the data handed to its threshold fit (the rates inside the window), are those of that logical, and the fitted threshold is marked. Nothing is mixed between distances, rates, logicals or solvers, and missing combinations do not make the figure fail.",
  ["input", "schedule"], "all values (symbolic), all subsets of a grid of result files, several file orders",
  "no test draws a figure",
  ["src/mqt/qecc/cc_decoder/plots.py"], [("figures", "generate_plots, generate_plots_tn, generate_plots_comp"), ("threshold", "calculate_threshold, threshold_fit"), ("command line", "main")])
if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
