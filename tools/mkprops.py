import json
B="src/python/zquantum/core/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":[ (f if f.startswith(("steps","subtrees")) else B+f) for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("C01","Circuit unitary is the ordered product of its embedded gates",
 "For every circuit, the unitary it reports equals the product of its operations' matrices with the first operation acting first, each gate acting on exactly the qubits it was applied to, in the order given (qubit 0 is the most significant bit of a basis index), and as identity on all other qubits up to the circuit's qubit count. This holds for every built-in and user-defined gate, any choice of distinct qubits (adjacent or not, ascending or not), and equally for the symbolic form after its parameters are substituted. Applying the operations one after another to a state vector gives the same result as multiplying by that unitary.",
 ["programs","inputs"],"all circuits over all gates, wrappers, qubit tuples, register sizes and parameter values",
 "tests compare a few fixed gates and qubit tuples; the space of gate x qubit order x gap x composition is not enumerated",
 ["circuits/_circuit.py","circuits/_gates.py","circuits/_unitary_tools.py","circuits/_matrices.py","circuits/_builtin_gates.py"],
 [("Circuit.to_unitary","circuits/_circuit.py"),("GateOperation.lifted_matrix/apply","circuits/_gates.py"),("_lift_matrix","circuits/_unitary_tools.py")],
 ["Circuit.to_unitary","GateOperation.apply","GateOperation.lifted_matrix"])

p("C02","Gate algebra: controlled and dagger, in any nesting",
 "A gate's dagger has the conjugate-transpose matrix, taking the dagger twice gives back an equal gate, self-adjoint built-in gates are their own dagger, and a gate controlled on k qubits acts as the original on the last qubits exactly when all k leading control qubits are one and as identity otherwise. Control counts add up under repeated control, dagger and control can be applied in any order with equal results, and number of qubits, parameters, free symbols, parameter substitution and parameter replacement of a wrapped gate all agree with the gate it wraps. Every built-in gate has exactly its documented matrix, and a request that leaves a non-positive number of controls is rejected.",
 ["inputs"],"all gates x all words of dagger/controlled wrappers x all parameters",
 "tests fix a short list of gates and one or two wrapper nestings",
 ["circuits/_gates.py","circuits/_matrices.py","circuits/_builtin_gates.py"],
 [("ControlledGate","circuits/_gates.py"),("Dagger","circuits/_gates.py"),("MatrixFactoryGate","circuits/_gates.py")],
 ["Gate.matrix","Gate.dagger","Gate.controlled"])

p("C03","Parameter binding commutes with everything else",
 "Binding symbols in a gate, operation or circuit yields exactly the object obtained by writing the bound values in the first place: same operations on the same qubits, same qubit count, same unitary, with symbols not in the map left free, unrelated entries ignored, and all given values substituted simultaneously. The original object is never modified, binding in several steps gives the same result as binding at once, and replacing parameters replaces all of them. Free symbols are exactly the unbound ones, each listed once, in order of first appearance in the circuit and by name within an operation.",
 ["programs","inputs","histories"],"all parametrized circuits and all sequences of partial bindings",
 "tests bind one full map on a few circuits; partial, repeated, renaming and swapping maps are not enumerated",
 ["circuits/_circuit.py","circuits/_gates.py","circuits/_operations.py","circuits/_wavefunction_operations.py"],
 [("Circuit.bind / free_symbols","circuits/_circuit.py"),("sub_symbols, get_free_symbols","circuits/_operations.py"),("CustomGateMatrixFactory.__call__","circuits/_gates.py")],
 ["Circuit.bind","Circuit.free_symbols"])

p("C04","Circuit construction, concatenation, splitting and equality",
 "Appending a gate operation or another circuit yields a new circuit with the operations in order and a qubit count that is the larger of both sides, leaving the operands unchanged; without an explicit count a circuit has as many qubits as its highest used index plus one. Splitting a circuit by a predicate yields maximal runs of constant predicate value, in order, each with the full qubit count, whose concatenation is the original. Two circuits are equal exactly when qubit counts and operation sequences agree, and invalid qubit counts are rejected. The definitions of user-defined gates used anywhere in a circuit, wrapped or not, are collected once each, and conflicting definitions of one name are rejected.",
 ["programs","histories"],"all sequences of circuit-building operations",
 "tests check a handful of concatenations and splits",
 ["circuits/_circuit.py"],
 [("Circuit.__add__, __eq__","circuits/_circuit.py"),("split_circuit","circuits/_circuit.py"),("collect_custom_gate_definitions","circuits/_circuit.py")],
 ["Circuit.operations","Circuit.n_qubits"])

p("C05","Circuit serialization round trip is lossless",
 "Any circuit of gate operations, written out as a dictionary, JSON text or file and read back, equals the original: same qubit count, same gates (built-in, controlled, dagger, user-defined, in any nesting), same qubits, same numeric and symbolic parameters, same unitary; lists of circuits come back in order. User-defined gates carry one definition per distinct gate, two different definitions under one name are rejected, and data with a missing or wrong schema is rejected.",
 ["programs"],"all circuits of gate operations incl. nested wrappers, symbolic parameters and user-defined gates",
 "tests round-trip a list of hand-written circuits; combinations such as wrapped user-defined gates with several symbolic parameters are absent",
 ["circuits/_serde.py","circuits/_circuit.py"],
 [("to_dict","circuits/_serde.py"),("circuit_from_dict, circuitset_from_dict","circuits/_serde.py"),("save_circuit/load_circuit","circuits/_serde.py")],
 ["to_dict","circuit_from_dict","load_circuit"])

p("C06","Simulated state, exact values and outcome distribution agree with the circuit",
 "A simulator's wavefunction is the circuit's operations applied in order to the given initial state (all-zero by default), which is left as it is, including per-amplitude phase operations; the exact expectation values are one real number per operator term, in term order, equal to the coefficient times the quadratic form of that term in the state; the exact outcome distribution gives outcome (b0,b1,...) the squared modulus of the amplitude whose qubit i is b_i. Sampled bitstrings use the same qubit order, number exactly the requested shots, only contain outcomes of nonzero probability, and are reproducible under a fixed seed; circuits with unbound symbols or non-positive shot counts are rejected.",
 ["programs","inputs"],"all circuits, initial states, operators and shot counts",
 "tests use symmetric circuits or one asymmetric one; operator term order x qubit order x initial states are not covered",
 ["interfaces/backend.py","symbolic_simulator.py","measurement.py","wavefunction.py","circuits/_wavefunction_operations.py"],
 [("QuantumSimulator.get_wavefunction/get_exact_expectation_values","interfaces/backend.py"),("SymbolicSimulator.run_circuit_and_measure","symbolic_simulator.py"),("sample_from_wavefunction","measurement.py")],
 ["Wavefunction","Measurements","ExpectationValues"])

p("C07","Symbolic expression translation preserves value; symbol orderings are natural",
 "Translating a symbolic expression (sums, products, differences, quotients, powers, roots, trigonometric and exponential functions, numbers, symbols) into the neutral form and back yields an expression with the same value under every assignment, and unknown functions or types are rejected rather than dropped. The natural ordering compares digit groups as integers and other text as text, its reversed variant compares the last group first, and the fixed-names ordering sorts by index first and by the given name order second.",
 ["inputs"],"all expressions and all sets of symbol names",
 "tests translate a fixed list of expressions and sort two or three lists",
 ["circuits/symbolic/sympy_expressions.py","circuits/symbolic/translations.py","circuits/symbolic/_sorting.py"],
 [("expression_from_sympy","circuits/symbolic/sympy_expressions.py"),("translate_expression","circuits/symbolic/translations.py"),("natural_key*","circuits/symbolic/_sorting.py")])

p("C08","Circuit generators and layouts cover exactly the intended qubits and pairs",
 "Layer generators apply the given gate exactly once to every requested qubit with the corresponding parameters and leave the given circuit unmodified; adding n ancillas yields n more qubits and the same action on the original ones. Generated layouts consist of layers whose pairs are disjoint within a layer, lie inside the register, and together contain every connected pair of the intended line or grid (once for the line, once in each of the two colour patterns for the grid), and nothing else; unknown layout types are rejected, and layouts and connectivities survive being saved and loaded.",
 ["inputs","configurations"],"all register sizes, gates, parameter tables and layout types",
 "tests fix a few register sizes",
 ["circuits/_generators.py","circuits/layouts.py"],
 [("create_layer_of_gates, apply_gate_to_qubits, add_ancilla_register","circuits/_generators.py"),("build_circuit_layers_and_connectivity","circuits/layouts.py")])

p("C09","Gate decompositions preserve the circuit's action",
 "Decomposing a circuit of gate operations with any list of rules yields a circuit on the same number of qubits whose unitary equals the original's up to one global phase, where every operation a rule applies to has been replaced in place and all others are kept, in order. Rules are applied in the order given, each to the output of the previous one.",
 ["programs","configurations"],"all circuits (incl. controlled and symbolic gates) x rule lists",
 "tests decompose a few single-gate circuits",
 ["decompositions/_decomposition.py","decompositions/_zquantum_decompositions.py","decompositions/_ry_decompositions.py"],
 [("decompose_operations","decompositions/_decomposition.py"),("U3GateToRotation","decompositions/_ry_decompositions.py"),("decompose_zquantum_circuit","decompositions/_zquantum_decompositions.py")])

p("C10","Time-evolution circuits implement the Trotter formula",
 "For a Hamiltonian given as one or more Pauli terms, the evolution circuit's unitary equals, up to a global phase, the product over the requested number of steps of exp(-i c t/steps P) over the terms in order; for mutually commuting terms this is the exact evolution exp(-iHt), and symbolic times give the same circuit after binding. The derivative circuits, summed with their factors, give the time derivative of any expectation value of the evolved state; unknown methods are rejected.",
 ["inputs","programs"],"all Pauli Hamiltonians with real coefficients, times, step counts, initial states and observables",
 "tests check a few Hamiltonians with one or two terms",
 ["evolution.py"],
 [("time_evolution, time_evolution_for_term","evolution.py"),("time_evolution_derivatives","evolution.py")])

p("B01","Backend run contract: order, shot counts, counters and batches",
 "Running a list of circuits returns one measurement set per circuit in the same order, each with the number of shots requested for that circuit; a single run with a non-positive shot count is rejected, and a device backend does not count it. The number of circuits run grows by one per circuit executed and the number of jobs by one per single execution or by the number of batches rounded up when batching is supported; a simulator counts one per maximal natively supported segment of the circuit.",
 ["histories","configurations"],"all sequences of runs on all backend configurations",
 "tests call each method once on one backend",
 ["interfaces/backend.py","interfaces/mock_objects.py","symbolic_simulator.py"],
 [("QuantumBackend.run_circuitset_and_measure","interfaces/backend.py"),("QuantumSimulator.get_wavefunction","interfaces/backend.py")],
 state=[("number_of_circuits_run","circuits executed","interfaces/backend.py"),("number_of_jobs_run","jobs executed","interfaces/backend.py")])

p("B02","Measurement tracking records every run and changes nothing",
 "Wrapping a backend for tracking returns exactly the wrapped backend's results for every call, in order, and after each call the raw-data file holds one record per circuit run by the latest call with the circuit, its counts, shot and gate numbers and, only if requested, the individual bitstrings. Distribution queries are recorded likewise with their distribution.",
 ["histories"],"all sequences of single, set and distribution runs through the wrapper",
 "tests check one call of each kind",
 ["trackers.py"],
 [("MeasurementTrackingBackend","trackers.py")])

p("B03","A wavefunction is always a normalized vector of power-of-two length",
 "A wavefunction object can only be created, modified or bound such that it has power-of-two length and unit norm (for symbolic vectors: numeric entries not exceeding unit probability); every rejected modification or binding leaves the object exactly as it was. Basis, Dicke and flipped states have the documented amplitudes, flipping twice is the identity, and outcome probabilities are the squared moduli under bit-reversed labels and sum to one.",
 ["histories","inputs"],"all sequences of constructions, element and slice assignments, bindings and flips",
 "tests do single assignments; histories with rejected steps followed by others are not explored",
 ["wavefunction.py"],
 [("Wavefunction.__init__, __setitem__, bind","wavefunction.py"),("dicke_state, zero_state, flip_amplitudes","wavefunction.py")],
 state=[("amplitudes","state vector","wavefunction.py")])

p("M01","Measurement sets are faithful multisets of outcomes",
 "A measurement set behaves as an ordered list of outcomes: counts give the number of occurrences of each outcome, adding counts appends exactly those occurrences, building from counts and reading counts back is the identity, and the distribution is counts divided by total. Saving and loading gives back the same outcomes in the same order, and bit i of an outcome (first character of a label, least significant bit of the integer form) is always qubit i.",
 ["histories"],"all sequences of additions, reads, saves and loads",
 "tests check a few fixed histograms",
 ["measurement.py","utils.py"],
 [("Measurements","measurement.py"),("convert_tuples_to_bitstrings, convert_bitstrings_to_tuples","utils.py")])

p("M02","Expectation values, correlations and parities computed from outcomes are exact",
 "For every outcome list and Ising operator, the expectation value of each term is its coefficient times the average of the product of +1/-1 values of its qubits, correlations are the averaged pairwise products with coefficients, and estimator covariances are correlation minus product of means divided by the number of outcomes (minus one with Bessel's correction). Parity counts per term and per pair of terms split the total number of outcomes into even and odd exactly, and expectation values derived from parities have the stated value and precision; concatenating keeps all values and frames in order and non-Ising operators are rejected.",
 ["inputs"],"all outcome lists, Ising operators and flags",
 "tests use two or three small operators without repeated outcomes and coefficients other than one",
 ["measurement.py"],
 [("Measurements.get_expectation_values","measurement.py"),("get_parities_from_measurements, get_expectation_values_from_parities","measurement.py"),("concatenate_expectation_values","measurement.py")])

p("M03","Outcome distributions are validated, normalized and preserved",
 "An outcome distribution can only be built from a non-empty mapping of equal-length non-negative integer sequences (tuples, digit strings or comma-separated strings) to non-negative weights; it is rescaled to total one preserving all ratios unless normalization is declined, and the input mapping is not changed. Saving and loading a normalized distribution, singly or as a list, gives back the same outcomes and probabilities; building from a probability vector assigns entry i to the big-endian bits of i.",
 ["inputs"],"all input mappings",
 "tests use small binary examples",
 ["distribution/_measurement_outcome_distribution.py","bitstring_distribution.py"],
 [("MeasurementOutcomeDistribution","distribution/_measurement_outcome_distribution.py"),("save/load_measurement_outcome_distribution(s)","distribution/_measurement_outcome_distribution.py")])

p("M04","Distribution distances have their defining value",
 "The clipped negative log-likelihood equals minus the target-weighted sum of log(max(epsilon, measured)) over the union of outcomes; the symmetrized divergence is the mean of both directions and hence symmetric; the maximum mean discrepancy is the quadratic form of the difference vector under the (averaged multi-)Gaussian kernel, non-negative, symmetric and zero for identical distributions (outcomes over bits). A distance evaluation rejects arguments of the wrong type, of different outcome length, or of which only one is normalized.",
 ["inputs"],"all pairs of distributions and parameters",
 "tests compare a few fixed values",
 ["distribution/clipped_negative_log_likelihood.py","distribution/jensen_shannon_divergence.py","distribution/mmd.py","distribution/_measurement_outcome_distribution.py"],
 [("compute_*","distribution/"),("evaluate_distribution_distance","distribution/_measurement_outcome_distribution.py")])

p("M05","Representing a distribution by n outcomes: exact number, nearest shares",
 "Turning a distribution into a set of n outcomes always yields exactly n outcomes, all of positive probability, and when every exact share is an integer, the counts equal the shares exactly. Otherwise the counts deviate from the shares' nearest integers only by outcomes added when these sum to too few, or removed when they sum to too many. The distribution itself is not modified.",
 ["inputs"],"all distributions and sample numbers, all random tie-breaks",
 "tests try a few distributions; the random correction path is rarely hit",
 ["measurement.py","utils.py"],
 [("Measurements.get_measurements_representing_distribution","measurement.py"),("sample_from_probability_distribution","utils.py")])

p("E01","Grouping and splitting estimation tasks loses and duplicates nothing",
 "Grouping estimation tasks by co-measurability, individually or greedily, partitions the operator's terms into groups (each term with its coefficient in exactly one task, same circuit and shots), and all terms within a greedy group can be measured in one common single-qubit basis; sorting by magnitude changes only the order of consideration. Splitting off tasks that need no measurement returns every task exactly once with its original index, and the trivial tasks are estimated by their constant or zero as documented.",
 ["inputs","programs"],"all operators and task lists",
 "tests group a few Hamiltonians",
 ["estimation/_estimation.py","hamiltonian.py"],
 [("group_greedily*, group_individually","estimation/_estimation.py"),("group_comeasureable_terms_greedy","hamiltonian.py"),("split_estimation_tasks_to_measure","estimation/_estimation.py")])

p("E02","Basis-change contexts turn Pauli terms into equivalent Ising terms",
 "For an operator whose terms share a single-qubit basis, appending the context circuit and measuring the diagonal operator gives, for every state, term by term the expectation value of the original operator with its coefficients. Applied to a list of estimation tasks, the transformation keeps order, shot counts and circuits up to appending the basis change.",
 ["inputs","programs"],"all co-measurable operators and all states",
 "tests compare a few terms",
 ["estimation/_estimation.py","hamiltonian.py"],
 [("perform_context_selection","estimation/_estimation.py"),("get_context_selection_circuit_for_group","estimation/_estimation.py")])

p("E03","Shot allocation conserves the budget and follows the weights",
 "Uniform allocation gives every task the same given shots; proportional allocation splits the total budget into non-negative integers, proportional to each task's weight (its coefficient norm or prior-based deviation) to within one shot and summing to the budget exactly. Discretizing any list of weights to a total returns integers summing to that total with largest remainders first; invalid budgets and prior values are rejected.",
 ["inputs"],"all weight vectors, budgets and priors",
 "tests use a few weight vectors",
 ["estimation/_estimation.py","utils.py","hamiltonian.py"],
 [("allocate_shots_uniformly, allocate_shots_proportionally","estimation/_estimation.py"),("scale_and_discretize","utils.py"),("estimate_nmeas_for_frames","hamiltonian.py")])

p("E04","Estimators return one result per task, in task order, with the right value",
 "Whatever mix of constant, zero-shot and measurable tasks is given, estimation returns exactly one result per task in the order of the tasks, each with the expectation values of that task's operator terms for that task's circuit; exact estimation returns the exact values and sampling estimation returns the averages of the outcomes the backend returned for that circuit, requesting exactly the task's shots. Results of evaluating parametrized tasks equal binding first and estimating afterwards.",
 ["programs","configurations"],"all task lists",
 "tests use lists of one or two measurable tasks",
 ["estimation/_estimation.py","interfaces/estimation.py"],
 [("estimate_expectation_values_by_averaging","estimation/_estimation.py"),("calculate_exact_expectation_values","estimation/_estimation.py"),("evaluate_estimation_circuits","estimation/_estimation.py")])

p("E05","Cost functions are the composition of their parts",
 "A cost function built from an ansatz or a parametrized circuit returns, for every parameter vector, the total of the expectation values of the target operator in the state with those parameters bound in the documented symbol order, for any chain of task preprocessing; fixed parameters and added noise are applied at the documented position, and the same noise seed gives the same sequence. Finite-difference gradients equal the symmetric difference quotient component by component, and summed values carry precision equal to the root of summed variances.",
 ["programs","inputs","histories"],"all ansatz/operator/parameter/preprocessor combinations",
 "tests exercise one ansatz with commuting terms",
 ["cost_function.py","gradients.py"],
 [("create_cost_function","cost_function.py"),("fix_parameters, add_normal_noise","cost_function.py"),("finite_differences_gradient","gradients.py"),("sum_expectation_values","cost_function.py")])

p("H01","Recorders keep exactly the evaluations their save condition selects",
 "A recorded function returns exactly what the original returns for every call and keeps a history whose entries are, in call order, exactly the calls selected by the save condition, with their argument, value and call number counted from zero; forced artifacts are kept even if the condition says no and non-forced ones only with their entry. Arguments are stored by value, gradients are recorded alike, other attributes are forwarded, and a copy continues the same history while a deep copy has an independent one. A call that raises leaves no trace.",
 ["histories"],"all call sequences, save conditions and artifact uses",
 "tests run a few short sequences",
 ["history/recorder.py","history/save_conditions.py","interfaces/functions.py"],
 [("recorder, FunctionRecorder, ArtifactCollection","history/recorder.py"),("every_nth, always","history/save_conditions.py")],
 state=[("call_number, history","recorder state","history/recorder.py")])

p("H02","Augmented cost functions run their side effects at the right calls",
 "Augmenting a function keeps its values, gradient and other attributes; a conditional side effect runs after exactly those calls whose (value, parameters, call number) satisfy its condition, with call numbers counting every successful evaluation from zero, and several augmentations, of the function and of its gradient, compose in the order given.",
 ["histories"],"all call sequences and stacks of augmentations",
 "tests use single augmentations with simple conditions",
 ["cost_function_augmentations.py","interfaces/functions.py"],
 [("ConditionalSideEffect...","cost_function_augmentations.py"),("FunctionWithGradient","interfaces/functions.py")])

p("H03","Optimizer interface keeps history, counts and results consistent",
 "Minimizing with history on records every evaluation of the function and of its gradient the optimizer made (or those its recorder selects), in order, while the result is the same as with history off; with history off the history is empty and there is no gradient history. Extending histories appends the recorder's entries after the given ones, keeping every entry and the given lists, and a nested optimizer's history is that of its inner runs in sequence.",
 ["histories","configurations"],"all optimizer runs and nestings",
 "tests run one mock optimizer",
 ["interfaces/optimizer.py","interfaces/mock_objects.py"],
 [("Optimizer.minimize, construct_history_info, extend_histories","interfaces/optimizer.py"),("NestedOptimizer","interfaces/optimizer.py")])

p("A01","An ansatz never serves a stale circuit",
 "After any sequence of property changes and circuit requests, an ansatz's parametrized circuit is the one its current property values define, computed once and reused while nothing changed; the executable circuit binds the i-th given value to the i-th symbol in the ansatz's documented symbol order. Parameter counts equal the number of free symbols of the circuit, and wrong parameter counts or combined parameter vectors are handled as documented.",
 ["histories"],"all sequences of property changes, circuit requests and executions",
 "tests check single invalidations",
 ["interfaces/ansatz.py","interfaces/ansatz_utils.py"],
 [("ansatz_property, DynamicProperty","interfaces/ansatz_utils.py"),("Ansatz.parametrized_circuit, get_executable_circuit","interfaces/ansatz.py")],
 state=[("_parametrized_circuit","cache","interfaces/ansatz.py")])

p("O01","Qubit operator algebra is a faithful matrix algebra",
 "Sums, differences, products, scalar multiples, quotients, powers and negations of Pauli-type operators denote exactly the corresponding matrices, with products of Pauli factors simplified to one factor per qubit and the correct phase, for operators built in any textual, tuple or term-by-term way; in-place variants change only the left operand and non-in-place ones change neither. Two operators that denote the same matrix compare equal after compression, printing and re-reading is the identity, and invalid terms are rejected.",
 ["programs","inputs"],"all expressions over the operator algebra",
 "tests check individual products; algebraic laws over all operators are not quantified",
 ["openfermion/ops/operators/symbolic_operator.py","openfermion/ops/operators/qubit_operator.py","openfermion/ops/operators/ising_operator.py"],
 [("SymbolicOperator arithmetic","openfermion/ops/operators/symbolic_operator.py"),("QubitOperator._simplify","openfermion/ops/operators/qubit_operator.py"),("IsingOperator._simplify","openfermion/ops/operators/ising_operator.py")])

p("O02","Fermionic operator algebra, normal ordering and conjugation are faithful",
 "Fermionic operators denote operators on occupation states obeying the canonical anticommutation relations; arithmetic, Hermitian conjugation, commutators and anticommutators denote the corresponding operations, and normal ordering (and chemist ordering, reordering by a permutation) changes only the representation as documented. Normal-ordered form is canonical: two operators have the same normal form exactly when they act identically; Hermiticity and particle/spin conservation tests answer accordingly.",
 ["programs","inputs"],"all fermionic operators",
 "tests check single identities",
 ["openfermion/ops/operators/fermion_operator.py","openfermion/transforms/opconversions/term_reordering.py","openfermion/utils/operator_utils.py","openfermion/utils/commutators.py"],
 [("normal_ordered, chemist_ordered, reorder","openfermion/transforms/opconversions/term_reordering.py"),("hermitian_conjugated, is_hermitian","openfermion/utils/operator_utils.py"),("commutator, anticommutator","openfermion/utils/commutators.py")])

p("O03","Fermion-to-qubit transforms are algebra homomorphisms",
 "The Jordan-Wigner and Bravyi-Kitaev transforms of any fermionic operator or interaction operator respect sums, products and adjoints, send ladder operators to matrices obeying the canonical anticommutation relations, and map number operators to commuting projectors with occupation eigenvalues; transforming an interaction operator directly equals transforming its fermionic expansion. The reverse Jordan-Wigner transform inverts the Jordan-Wigner transform in both directions, and too small qubit counts are rejected.",
 ["inputs"],"all fermionic operators, interaction operators and register sizes",
 "tests check specific operators on a few modes",
 ["openfermion/transforms/opconversions/jordan_wigner.py","openfermion/transforms/opconversions/bravyi_kitaev.py","openfermion/transforms/opconversions/reverse_jordan_wigner.py"],
 [("jordan_wigner","openfermion/transforms/opconversions/jordan_wigner.py"),("bravyi_kitaev","openfermion/transforms/opconversions/bravyi_kitaev.py"),("reverse_jordan_wigner","openfermion/transforms/opconversions/reverse_jordan_wigner.py")])

p("O04","Operator serialization and type conversion round trips are lossless",
 "Operators, operator sets and interaction operators written out (as dictionary, text or file) and read back are equal to the original, with the same terms and complex coefficients, in order for lists. Conversions between operator types keep exactly the terms and coefficients, and reject operators that the target type cannot represent.",
 ["inputs"],"all operators",
 "tests round-trip a few real-coefficient operators",
 ["openfermion/zapata_utils/_io.py","openfermion/zapata_utils/_utils.py","openfermion/utils/operator_utils.py"],
 [("convert_*_to_dict/convert_dict_to_*","openfermion/zapata_utils/_io.py"),("change_operator_type","openfermion/zapata_utils/_utils.py")])

p("O05","Operator utilities agree with the matrices they describe",
 "Pauli expansion of a matrix reproduces the matrix, reversing the qubit order permutes tensor factors, the sparse matrix of an operator is the matrix it denotes, the expectation value of an operator in a state is its quadratic form, the diagonal component and its complement add up to the operator, and evaluating an operator with given term values is the coefficient-weighted sum. Circuits made from an operator contain one Pauli gate per factor of each term, in order. Adjoints, Hermiticity tests, density matrices, inner products, restriction to a particle number, number-preserving sparse operators, eigenvalues and ground states (also at a given particle number) are those of the matrix.",
 ["inputs"],"all operators, matrices and states",
 "tests check a few operators",
 ["openfermion/zapata_utils/_utils.py","openfermion/linalg/sparse_tools.py"],
 [("get_qubitop_from_matrix, reverse_qubit_order, get_expectation_value, get_diagonal_component, evaluate_qubit_operator","openfermion/zapata_utils/_utils.py"),("qubit_operator_sparse, get_sparse_operator","openfermion/linalg/sparse_tools.py")])

p("O06","Tensor representations and fermionic operators denote the same thing",
 "Interaction operators and polynomial tensors act as linear objects without hidden sharing: element access, addition, subtraction, multiplication, scaling, negation, remainder and projection to given modes act entrywise and change only the target, iteration yields the nonzero entries (one per symmetry class where asked), normal ordering, conjugation and Hermiticity tests are those of the fermionic operator, and rotating the one-particle basis by a matrix transforms every index by that matrix or its conjugate. Converting a fermionic operator with at most two-body number-conserving terms to tensors and back gives the same operator, any other operator is rejected, restricting an operator to an active space (freezing orbitals) equals fixing the core orbitals as occupied, reduced density matrices hold the expectation values of ladder products, and the expectation of an interaction or Pauli operator computed from them is the expectation in the state.",
 ["inputs"],"all tensors, operators, rotations and active spaces",
 "tests check small fixed tensors",
 ["openfermion/ops/representations/polynomial_tensor.py","openfermion/ops/representations/interaction_operator.py","openfermion/ops/representations/interaction_rdm.py","openfermion/transforms/repconversions/conversions.py"],
 [("PolynomialTensor","openfermion/ops/representations/polynomial_tensor.py"),("get_interaction_operator, get_fermion_operator","openfermion/transforms/"),("get_active_space_integrals","openfermion/ops/representations/interaction_operator.py")])

p("O07","Model Hamiltonians and chemistry constructions equal their defining formulas",
 "Fermi-Hubbard models (with and without spin, on any lattice, periodic or not, with or without the particle-hole symmetric form) are the sums over sites and edges of their definition, each edge counted once; number operators count; the reduced Hamiltonian has no one-body part and acts like the original on states of the given particle number. Spin-orbital tensors of integrals, antisymmetrized, Coulomb and exchange integrals hold the right entries; the Hamiltonian of a molecule is the sum over its integrals, restricting it to an active space equals filling its core orbitals, and turning a spin-independent Hamiltonian into molecular data and back changes nothing. Coupled-cluster generators contain exactly the given excitations (anti-Hermitian where asked), singlet generators pair the amplitudes with the excitations in the documented order and number, and invalid arguments are rejected.",
 ["inputs","configurations"],"all lattices, integrals, orbital spaces and amplitudes",
 "tests check small fixed cases",
 ["openfermion/hamiltonians/hubbard.py","openfermion/hamiltonians/special_operators.py","openfermion/hamiltonians/general_hubbard.py","openfermion/chem/reduced_hamiltonian.py","openfermion/chem/molecular_data.py","openfermion/circuits/unitary_cc.py"],
 [("fermi_hubbard","openfermion/hamiltonians/hubbard.py"),("make_reduced_hamiltonian","openfermion/chem/reduced_hamiltonian.py"),("spinorb_from_spatial, MolecularData.get_molecular_hamiltonian","openfermion/chem/molecular_data.py"),("uccsd_generator, uccsd_singlet_generator","openfermion/circuits/unitary_cc.py")])

p("O08","Molecules keep their data through files",
 "A molecule object holds the metadata derived from its atoms (sorted atoms, protons, electrons, name, file name with or without extension). Saving writes every field it holds, including arrays so far only present in its file, to exactly that file; opening the file gives an object with the same metadata, energies (zero is not missing), general calculations and arrays, missing fields staying missing. Loading replaces metadata and energies by those of the file, arrays are read when first asked for and then kept, objects never affect one another except through files, and asking for integrals or density matrices that were not calculated is an error.",
 ["histories","inputs"],"all sequences of creating, opening, saving, loading, setting and reading over several objects and files",
 "tests save and load fixed molecules once",
 ["openfermion/chem/molecular_data.py"],
 [("MolecularData.save, load, get_from_file","openfermion/chem/molecular_data.py"),("name_molecule, geometry_from_file","openfermion/chem/molecular_data.py")])

p("U01","Arrays, value estimates and optimization results survive saving",
 "Non-empty real and complex arrays of any shape, value estimates, lists, expectation values, parities, wavefunctions, measurement-count estimates, noise models, and optimization results with histories, artifacts and gradients, all come back equal from their dictionary, JSON and file form, whether loaded by path or from an open file; saving replaces exactly the named file and changes no object. Value estimates behave as numbers with an optional precision, and schema information is written where documented.",
 ["inputs"],"all values of the supported types",
 "tests round-trip fixed examples",
 ["utils.py","serialization.py","measurement.py"],
 [("convert_array_to_dict/convert_dict_to_array, ValueEstimate","utils.py"),("OrquestraEncoder/OrquestraDecoder, save/load_optimization_results","serialization.py")])

p("U02","General utilities satisfy their defining equations",
 "Converting integers to binary vectors and back is the identity with the documented bit order and width; tuple/string conversions of bit lists are mutually inverse and keep order. Matching of matrices (identity, unitarity, equality of unitaries up to a global phase) decides exactly those relations and rejects matrices it does not apply to, splitting a total in given ratios gives integers adding up to it, each the exact share rounded down or (for the largest remainders) up, sampling yields the requested number of outcomes of positive probability, a symbols map pairs symbols with values in order, and objects are created from specifications with exactly the given arguments, conflicting ones being rejected.",
 ["inputs"],"all integers, widths, bit lists",
 "tests check a few values",
 ["utils.py"],
 [("dec2bin, bin2dec, convert_tuples_to_bitstrings, convert_bitstrings_to_tuples","utils.py"),("sample_from_probability_distribution","utils.py")])

p("U03","Generated graphs match their specification and survive saving",
 "Every graph generator returns a graph with the requested node number and structure (edge count, regularity, ladder, caveman, probability 0 and 1 limits), weights drawn from the requested set on every edge, deterministic under a seed; specification dictionaries select the same generator. Impossible specifications are rejected. Saving and loading a graph gives back the same nodes, edges and attributes, and graph comparison is true exactly for equal nodes and edges.",
 ["inputs","configurations"],"all graph specifications and graphs",
 "tests check a few sizes",
 ["graph.py"],
 [("generate_*","graph.py"),("save_graph, load_graph, compare_graphs","graph.py")])

p("W01","Workflow steps are the library functions plus files",
 "Every workflow step writes to its fixed output file exactly the object the corresponding library function yields on the loaded inputs, whether inputs are given as objects or files, parameters as strings or values, and reads nothing else. Running steps in sequence through their files therefore gives the same result as composing the library functions in memory.",
 ["programs","configurations"],"all step sequences and arguments",
 "tests run a few steps separately or not at all",
 ["steps/circuit.py","steps/operators.py","steps/measure.py","steps/graph.py","steps/optimize.py","steps/transforms.py","steps/utils.py"],
 [("steps.*","steps/")])

p("W02","The next release version is the minor bump of the current one",
 "For any version string of the form major.minor[.patch][.pre or -pre], the announced next version has the same major number, the minor number increased by one numerically, patch zero and no pre-release suffix; parsing and printing a version are inverse up to the separator. Strings without such a prefix are rejected.",
 ["inputs"],"all version strings",
 "tests check a few version strings",
 ["subtrees/z_quantum_actions/bin/get_next_version.py"],
 [("parse_version_str, Semver.bump_minor, main","subtrees/z_quantum_actions/bin/get_next_version.py")])
p("T01","Testing and compatibility tools answer as documented",
 "Random matrices, operators and states made for tests have the promised structure for every size and option (antisymmetric, Hermitian, unitary, real; interaction operators with their permutation symmetry and spin structure; operators inside the given qubits, term count and order; normalised states) and are the same under the same seed. The estimator contracts accept exactly the estimators that return one result per task in task order, with coefficients and constant terms. An equality tester accepts a group exactly when its items are equal, equally hashed and unequal to everything accepted before. A function made compatible with an older type gets exactly the translated arguments at every depth of the considered containers, everything else untouched, and the fallback exactly when a translation fails. Example functions have the values, gradients and artifacts of their formulas.",
 ["inputs","configurations","histories"],"all sizes, seeds, argument trees, histories of equality groups, estimators",
 "tests use these tools with a few fixed seeds and never check what they promise",
 ["openfermion/testing/testing_utils.py","openfermion/testing/random.py","testing/_initialize.py","interfaces/estimator_contract.py","wip/compatibility_tools.py","openfermion/_compat.py","circuits/_compatibility.py","history/example_functions.py"],
 [("EqualsTester, random_*","openfermion/testing/testing_utils.py"),("ESTIMATOR_CONTRACTS","interfaces/estimator_contract.py"),("compatible_with_old_type","wip/compatibility_tools.py")])

json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
for x in P: assert len(x["title"])<=80,x["title"]
print(len(P))
