"""Source of properties.jsonl and MANIFEST.json: run `python3 meta/gen.py` after editing."""
T = 'symbolic execution of the real Python code + z3 (bounded), counterexamples replayed concretely'
SMALL = 'The tests evaluate a handful of fixed examples; the statement quantifies over all values, shapes and combinations inside the bounds.'


def P(id, title, statement, text, files, mech, over=('inputs',), why=SMALL, na=None, note=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, files=files, mech=mech, why=why,
                      na=na, note=note, observe=observe))


PROPS = []
O = 'pygsti/objects/'
TL = 'pygsti/tools/'

P('P01', 'Circuit editing changes exactly the addressed layers and lines',
  'A circuit behaves as a grid of layers by lines: reading, setting, inserting, deleting, clearing, appending, concatenating, '
  'repeating, tensoring and re-lining a circuit places exactly the addressed gates where the call says and leaves every other gate, '
  'line, time and argument as it was. Operations on a static circuit never change it, and equality and hashing follow the content.',
  'all circuits up to the stated number of layers/lines built from a symbolic gate alphabet, all in-range positions and insertions',
  [O + 'circuit.py'], [('layer/line indexing and editing', O + 'circuit.py:Circuit.set_labels/insert_labels/delete_*'),
                       ('concatenation and repetition', O + 'circuit.py:Circuit.__add__/repeat/tensor_circuit_inplace')],
  over=('inputs', 'histories'))
P('P02', 'Circuit rewrites keep what the circuit does',
  'Rewrites that are documented as equivalences (serialising, parallelising, expanding or factorising sub-circuits, depth compression with '
  'inverse/commutation relations, idle padding, alias expansion, mapping lines there and back) produce a circuit that applies the same '
  'gates to each line in the same order, up to the stated relations. Derived counts (depth, size, gate counts) agree with the content.',
  'all circuits within the bounds over a symbolic gate alphabet; all gate relations supplied by the user',
  [O + 'circuit.py'], [('rewrites', O + 'circuit.py:Circuit.parallelize/serialize/expand_subcircuits/compress_depth')])
P('P03', 'Circuit text survives printing and parsing',
  'Printing any circuit and parsing the text gives back an equal circuit (layers, lines, sub-circuits, repetition, times, arguments, '
  'state-space labels), and the two parser implementations agree on every text both accept. The documented grammar (powers, grouping, '
  'labels, layers) has its documented meaning.',
  'all circuits in the bounds; all texts generated by the grammar up to the stated length',
  ['pygsti/io/circuitparser/slowcircuitparser.py', 'pygsti/io/circuitparser/fastcircuitparser.pyx', O + 'circuit.py', O + 'label.py'],
  [('lexer/parser', 'pygsti/io/circuitparser'), ('printing', O + 'circuit.py:_op_seq_to_str')], over=('inputs', 'programs'))
P('P04', 'Labels compare, hash, rename and re-map consistently',
  'A gate label is its name, target lines, arguments and time: equal labels hash equally, construction from tuples, strings and '
  'components agrees, printing round-trips, and renaming or re-mapping a label changes only the name or the lines respectively, keeping '
  'arguments, time and structure.', 'all labels built from symbolic names, lines, args and times, including nested parallel and circuit labels',
  [O + 'label.py'], [('label classes', O + 'label.py:Label.__new__ and LabelTup*/LabelTupTup*/CircuitLabel')])
P('P05', 'OpenQASM / Quil export lists the circuit\'s gates in order',
  'The exported OpenQASM or Quil program applies to each qubit exactly the gates of the circuit in order, on the right register index, '
  'with the documented gate translation and idle/measurement handling.', 'all circuits in the bounds over the built-in gate set',
  [O + 'circuit.py', TL + 'internalgates.py'], [('export', O + 'circuit.py:convert_to_openqasm/convert_to_quil')])
P('P06', 'A DataSet never loses or invents counts',
  'For every circuit the data set reports exactly the outcome counts, totals, times and outcome labels that were put in, in whatever way '
  'they were added (counts, raw series, replacing, collisions), and freezing, copying, slicing, truncating, removing, renaming and re-keying '
  'preserve the counts of every circuit not addressed.', 'all sequences of the operations within the bounds with symbolic counts/outcomes/times',
  [O + 'dataset.py'], [('index/array storage', O + 'dataset.py:DataSet.oli_static/time_static/reps_static and cirIndex'),
                       ('row view', O + 'dataset.py:_DataSetRow')], over=('inputs', 'histories'))
P('P07', 'Data-set filters and MultiDataSet keep each outcome\'s counts',
  'Aggregating outcomes, filtering to qubits, trimming, merging and multi-data-set storage add counts exactly along the stated grouping, '
  'keep totals and never mix circuits, qubits or member data sets.', 'all outcome maps, qubit subsets and symbolic counts in the bounds',
  ['pygsti/construction/datasetconstruction.py', O + 'multidataset.py'],
  [('filters', 'pygsti/construction/datasetconstruction.py:aggregate_dataset_outcomes/filter_dataset'), ('members', O + 'multidataset.py')],
  over=('inputs', 'histories'))
P('P08', 'Files written by pyGSTi read back to the same data',
  'Writing a data set, circuit list, circuit dictionary or multi-data set and loading the file gives back the same circuits in order and the '
  'same counts, zero counts and time stamps included.', 'symbolic counts (bounded digits) and circuits; all writer options in the bounds',
  ['pygsti/io/writers.py', 'pygsti/io/loaders.py', 'pygsti/io/stdinput.py'], [('writers', 'pygsti/io/writers.py'), ('readers', 'pygsti/io/stdinput.py')],
  na='file writing and reading is text formatting (%d/%s of counts, times and labels) and pyparsing/regex/string splitting over whole files: a symbolic number would have to be turned into text, where every value is a path of its own; only enumerating concrete files would remain, which is not solver-based. The circuit-text part of it (labels, circuits, parser) is decided by P03, the data-set content by P06/P07 and the JSON/MessagePack codecs by P28')
P('P09', 'Slice utilities agree with Python slicing',
  'Length, shift, intersection, index, merging and conversion helpers for slices and index lists denote exactly the index sets that Python '
  'slicing denotes, for every slice in their documented domain.', 'all start/stop/step and index values in the bounds',
  [TL + 'slicetools.py'], [('slice arithmetic', TL + 'slicetools.py')])
P('P10', 'Work is split over processors without loss or overlap',
  'Distributing indices, slices or blocks over any number of ranks gives every rank a consistent view in which each index is computed '
  'exactly once per sub-communicator group, and gathering reassembles the single-processor result on every rank that needs it. '
  'Running in parallel gives the same matrices as running serially.', 'all numbers of items and ranks in the bounds, symbolic array contents',
  [TL + 'mpitools.py'], [('distribution', TL + 'mpitools.py:distribute_indices/_slice'), ('gather', TL + 'mpitools.py:gather_slices/gather_indices')],
  over=('inputs', 'configurations', 'schedules'))
P('P11', 'List helpers find, permute and partition exactly',
  'Duplicate removal, occurrence counting, matching, sorting-permutation, splitting, lookup and substitution helpers return exactly what '
  'their names say for every list, in a deterministic order.', 'all lists in the bounds over a symbolic alphabet',
  [TL + 'listtools.py'], [('list helpers', TL + 'listtools.py')])
P('P12', 'Evaluation trees compute every requested circuit exactly once',
  'For every circuit list an evaluation tree (matrix- or map-based) describes a computation that reproduces each requested circuit\'s exact '
  'gate sequence, in which every operand is available before it is used; splitting the tree keeps every final element and its position.',
  'all lists of circuits within the bounds over a symbolic gate alphabet, all split sizes',
  [O + 'evaltree.py', O + 'matrixevaltree.py', O + 'mapevaltree.py'], [('trees', O + 'matrixevaltree.py:initialize'), ('splitting', O + 'evaltree.py:_split')],
  over=('inputs', 'configurations'))
P('P13', 'Predicted probabilities follow the Born rule for the model given',
  'For every model and circuit the outcome probabilities are effect . gates . state in time order, whichever simulator, dense or sparse '
  'representation, evaluation tree or circuit ordering is used; probabilities of a complete POVM add up to one for trace-preserving models.',
  'all real parameter values in a box; all circuits in the bounds', [O + 'matrixforwardsim.py', O + 'mapforwardsim.py', O + 'forwardsim.py', O + 'replib/slowreplib.py'],
  [('matrix products', O + 'matrixforwardsim.py'), ('map propagation', O + 'mapforwardsim.py'), ('representations', O + 'replib/slowreplib.py')])
P('P14', 'Analytic derivatives are the derivatives of what is predicted',
  'Jacobians and Hessians of gates, products, probabilities and objective terms equal the true partial derivatives of the corresponding '
  'value with respect to the model parameters, in parameter order.', 'all real parameter values in a box; all circuits in the bounds',
  [O + 'matrixforwardsim.py', O + 'operation.py', O + 'spamvec.py'], [('derivatives', O + 'matrixforwardsim.py:dproduct/hproduct'), ('gate derivatives', O + 'operation.py:deriv_wrt_params')])
P('P15', 'Parameter vectors round-trip and gates match their definition',
  'Setting a gate, state, effect or model from a parameter vector and reading it back gives the same vector, the dense matrix is the one the '
  'parameterisation defines (full, TP, static, composed, embedded, exponentiated Lindblad terms), and the constraint it promises (trace '
  'preservation, complement effects) always holds.', 'all real parameter vectors in a box', [O + 'operation.py', O + 'spamvec.py', O + 'povm.py', O + 'model.py', O + 'instrument.py'],
  [('parameterisations', O + 'operation.py'), ('state vectors', O + 'spamvec.py'), ('model vector', O + 'model.py:from_vector/to_vector')], over=('inputs', 'histories'))
P('P16', 'Polynomial arithmetic is exact polynomial arithmetic',
  'Adding, multiplying, scaling, powering, differentiating, substituting, mapping indices and compacting the polynomials used for term-based '
  'simulation commute with evaluation at every point.', 'all coefficients and evaluation points in a box; all monomials in the bounds',
  [O + 'polynomial.py', O + 'opcalc/slowopcalc.py'], [('polynomials', O + 'polynomial.py'), ('compact evaluation', O + 'opcalc/slowopcalc.py')])
P('P17', 'Symplectic/Clifford calculus is Pauli conjugation',
  'The symplectic matrix and phase vector of every Clifford gate, composition, inverse, embedding, layer and circuit conjugate every Pauli '
  'string to the Pauli string and sign that multiplication of the operators gives; decompositions multiply back to the original.',
  'all valid (matrix, phase) pairs for the stated qubit numbers, all circuits in the bounds', [TL + 'symplectic.py'],
  [('composition/inverse', TL + 'symplectic.py:compose_cliffords/inverse_clifford'), ('conversion', TL + 'symplectic.py:symplectic_rep_of_clifford_circuit')])
P('P18', 'Stabilizer simulation equals Clifford action on stabilizer states',
  'Applying Clifford gates to a stabilizer state keeps a valid stabilizer frame whose amplitudes and measurement probabilities are those of '
  'the dense state vector; probabilities over all outcomes sum to one.', 'all Clifford updates and outcomes on the stated qubit numbers',
  [O + 'stabilizer.py', TL + 'symplectic.py'], [('frame update and amplitudes', O + 'stabilizer.py:StabilizerFrame'), ('Pauli-Z measurement', TL + 'symplectic.py:pauli_z_measurement')])
P('P19', 'GF(2) linear algebra is exact',
  'Matrix products, inverses, solutions, ranks, row reductions, block constructions and factorizations over the two-element field satisfy '
  'their defining equations for every binary matrix in their domain, and never modify their arguments.', 'all binary matrices of the stated sizes; random choices arbitrary',
  [TL + 'matrixmod2.py'], [('GF(2) algebra', TL + 'matrixmod2.py')])
P('P20', 'Clifford compilers implement the requested Clifford on the device',
  'A compiled circuit implements exactly the requested Clifford or stabilizer preparation/measurement (up to the stated Pauli freedom) and '
  'uses only gates and qubit pairs the device provides, whatever random choices the compiler makes.', 'all Cliffords on the stated qubit numbers; all random choices in the bounds',
  ['pygsti/algorithms/compilers.py'], [('compilers', 'pygsti/algorithms/compilers.py')], over=('inputs', 'configurations'),
  na="the compilers draw their choices from numpy's random generator and search (Gaussian elimination with random operations, iterations until a cost improves) over concrete symplectic matrices; making the matrix symbolic forks on every GF(2) pivot (720 matrices on two qubits, 1.4 million on three) with the random choices on top, and the device-model look-ups need concrete text: not within reach. The underlying calculus (symplectic/phase updates, composition, inverses, GF(2) algebra, compiled-circuit composition) is decided in P17, P18 and P19")
P('P21', 'Randomized-benchmarking circuits return their stated ideal outcome',
  'Every sampled RB circuit (Clifford, direct, mirror) has the requested length and lines, uses only native gates, and ideally yields the '
  'returned target outcome with certainty, whatever random choices are made.', 'all random choices in the bounds', ['pygsti/algorithms/randomcircuit.py'],
  [('samplers', 'pygsti/algorithms/randomcircuit.py')], over=('inputs', 'schedules'),
  na='the samplers are compositions of the random compilers of P20 with random layer sampling; the statement quantifies over random-generator histories of unbounded length through code that cannot be followed symbolically (see P20). The Pauli/Clifford calculus and circuit editing they rest on are decided in P01, P17 and P18')
P('P22', 'Basis changes are invertible and represent the same operator',
  'Built-in bases are orthonormal where claimed, changing basis there and back is the identity, and vectors, superoperators, Choi matrices '
  'and unitaries are converted to the representation of the same physical map.', 'all matrices with entries in a box, all pairs of built-in bases and small dimensions',
  [TL + 'basistools.py', TL + 'basisconstructors.py', O + 'basis.py', TL + 'jamiolkowski.py', TL + 'optools.py'],
  [('basis change', TL + 'basistools.py:change_basis'), ('bases', O + 'basis.py'), ('Choi', TL + 'jamiolkowski.py')])
P('P23', 'Objective functions equal their statistical definition',
  'chi-squared, log-likelihood, Poisson and the other objective functions (values, per-element terms, residual vectors, first and second '
  'derivatives, regularised branches) equal their textbook definitions and are continuous where branches meet.', 'all probabilities, counts and totals in a box',
  [O + 'objectivefns.py', TL + 'likelihoodfns.py', TL + 'chi2fns.py'], [('raw objective functions', O + 'objectivefns.py')])
P('P24', 'Wildcard budgets admit exactly the allowed probability shifts',
  'The adjusted probabilities of a wildcard budget stay inside the total-variation budget of the circuit, remain a distribution, and never '
  'fit the data worse than the unadjusted ones; larger budgets never reduce the fit.', 'all probability vectors, frequencies and budgets in the bounds',
  [O + 'wildcardbudget.py'], [('update_probs', O + 'wildcardbudget.py:WildcardBudget.update_probs')])
P('P25', 'Multiple-hypothesis testing rejects exactly what the procedure allows',
  'Bonferroni, Holm, Hochberg, Benjamini-Hochberg and generalized-graph procedures reject exactly the hypotheses their definitions reject '
  'for every list of p-values, and pass significance along the graph without creating any.', 'all p-values in [0,1], all weights and graphs in the bounds',
  [O + 'hypothesistest.py', TL + 'hypothesis.py'], [('procedures', O + 'hypothesistest.py')])
P('P26', 'Experiment designs contain exactly the stated circuits',
  'Generated GST circuit lists contain exactly the stated preparation-germ-measurement products with the stated germ power, truncation, '
  'nesting and ordering, without unintended duplicates or omissions.', 'all small fiducial/germ lists over a symbolic alphabet and all length parameters in the bounds',
  ['pygsti/construction/circuitconstruction.py', 'pygsti/construction/stdlists.py'], [('lists', 'pygsti/construction/stdlists.py'), ('germ powers', 'pygsti/construction/circuitconstruction.py')])
P('P27', 'State-space and outcome label containers keep their meaning',
  'State-space label collections report dimensions, label sets and tensor-product blocks consistently under construction, reduction and '
  'reordering; outcome-label dictionaries treat equivalent spellings of an outcome as one key.', 'all label structures within the bounds', [O + 'labeldicts.py'],
  [('label containers', O + 'labeldicts.py')])
P('P28', 'JSON/MSGPACK encoding round-trips',
  'Encoding any supported object with the JSON codec and decoding it gives an equal object of the same type, nested structure included.',
  'all nested values of the supported kinds within the bounds', ['pygsti/io/jsoncodec.py'], [('codec', 'pygsti/io/jsoncodec.py')])
P('P29', 'Report quantities keep values and error bars together',
  'Wrapping, scaling, adding, differencing, reshaping and copying of reportable quantities act on value and error bar consistently and keep the kind of the error bar.', 'all values in a box', [O + 'reportableqty.py'],
  [('ReportableQty', O + 'reportableqty.py')])
P('P30', 'Idle tomography identifies intrinsic rates by Pauli algebra',
  'The Pauli-string arithmetic and the Jacobian entries used by idle tomography equal those of the Pauli commutators/anticommutators of the '
  'stated error generators; the generated fiducial pairs determine the intrinsic rates, and data generated from intrinsic rates give these rates.', 'all Pauli strings on the stated number of qubits', ['pygsti/extras/idletomography/pauliobjs.py', 'pygsti/extras/idletomography/idttools.py'],
  [('Pauli objects', 'pygsti/extras/idletomography/pauliobjs.py'), ('Jacobian entries', 'pygsti/extras/idletomography/idttools.py')])
P('P31', 'Matrix helper functions meet their algebraic definition',
  'The numerical helpers (block/sparse manipulation, projections, norms, traces, outer products, safe element access) satisfy their '
  'definition for every matrix of the stated shapes.', 'all matrices with entries in a box, all index selections', [TL + 'matrixtools.py'], [('helpers', TL + 'matrixtools.py')])
P('P32', 'Lindblad error generators are the stated generators',
  'Hamiltonian, stochastic and general Lindblad generators, their projections and the parameters-to-generator map are the stated linear '
  'or quadratic forms: trace preserving, Hermiticity preserving, dual to the projections.', 'all matrices/parameters in a box', [TL + 'lindbladtools.py', TL + 'optools.py'],
  [('generators', TL + 'lindbladtools.py'), ('parameter maps', TL + 'optools.py:paramvals_to_lindblad_projections')])
P('P33', 'Gauge transformations change no observable probability',
  'Transforming a model by any invertible gauge element leaves all circuit probabilities unchanged; gauge-group elements invert, compose and '
  'differentiate consistently with their parameters.', 'all gauge parameters in a box', [O + 'gaugegroup.py', O + 'explicitmodel.py'], [('gauge elements', O + 'gaugegroup.py'), ('transform', O + 'operation.py:transform_inplace')])
P('P34', 'Device description and qubit graphs answer connectivity exactly',
  'Neighbourhoods, shortest paths, distances, subgraph connectivity and native-gate availability reported by a qubit graph or processor '
  'specification are those of the graph that was declared.', 'all graphs on the stated number of qubits', [O + 'qubitgraph.py', O + 'processorspec.py', O + 'compilationlibrary.py'],
  [('graph queries', O + 'qubitgraph.py')], over=('inputs', 'configurations'))
P('P35', 'Confidence intervals and fits equal their formulas',
  'Estimates with closed forms (RB decay to error rate conversions, RPE angle bookkeeping, group averages, unreliable-gate counts) equal their defining formulas.',
  'all inputs in a box', [TL + 'rbtheory.py', TL + 'rbtools.py', TL + 'group.py', 'pygsti/extras/rpe/rpetools.py'], [('closed forms', TL + 'rbtools.py')])
P('P36', 'Data-set comparison flags exactly the inconsistent circuits',
  'Comparing two or more data sets computes for every allowed circuit the stated log-likelihood ratio, Jensen-Shannon divergence, total variation distance and p-value, sums them to the aggregate '
  'statistics, and flags exactly the circuits (and the aggregate) that the chosen multiple-hypothesis procedure rejects; the reported thresholds are consistent with the flags and with one another.',
  'all counts, p-values and significances within the bounds', [O + 'datacomparator.py'], [('comparison', O + 'datacomparator.py:DataComparator'), ('statistics', O + 'datacomparator.py:loglikelihoodRatio')])
P('P37', 'Benchmarking analyses compute the stated statistics of the counts',
  'Randomized and volumetric benchmarking compute, for every circuit and depth, the success counts, Hamming-distance counts, (adjusted) success probabilities and their statistic over circuits, widths and passes '
  'from exactly the recorded counts, fit the decay to exactly these averages with the stated free parameters, and report the error rate in the requested convention.',
  'all counts within the bounds, all statistics, rescalings and selections of depths, widths and paths', ['pygsti/protocols/rb.py', 'pygsti/algorithms/rbfit.py'],
  [('benchmarks', 'pygsti/protocols/rb.py:VolumetricBenchmark'), ('fits', 'pygsti/algorithms/rbfit.py:custom_least_squares_data_fitting')])
P('P38', 'Drift analysis: spectra, thresholds and trajectories equal their definitions',
  'Power spectra (also averaged over chunks) are the squared modes of the standardized data under the requested transform and null hypothesis, their inverse gives the data back; p-values and thresholds are those of the '
  'chi-squared distribution; amplitudes belong to the frequencies they are requested for; probability trajectories, their trimming, compression and likelihood equal the stated formulas for all parameters.',
  'all data values, parameters, frequencies (in any order) and significances within the bounds', ['pygsti/extras/drift/signal.py', 'pygsti/extras/drift/probtrajectory.py'],
  [('spectra', 'pygsti/extras/drift/signal.py:spectrum'), ('trajectories', 'pygsti/extras/drift/probtrajectory.py:ProbTrajectory')])
P('P90', 'Model fits reach the optimum of the objective',
  'Gate-set-tomography fits return a model at (local) optimum of the stated objective, never worse than the starting point.', 'all data sets',
  ['pygsti/algorithms/core.py', 'pygsti/optimize'], [('optimizers', 'pygsti/optimize')], na='iterative floating-point optimisers (LAPACK solves, convergence tests): the loop trip count depends on rounding and the result on eigen-solvers; nothing of it can be encoded with a meaningful bound')
P('P91', 'Spectral metrics (fidelity, diamond norm, angles) equal their definitions',
  'Fidelity, trace distance, diamond distance, rotation angle and Lindblad-logarithm metrics equal their definitions for all gates.', 'all matrices',
  [TL + 'optools.py'], [('metrics', TL + 'optools.py')], na='decided by eigenvalue/SVD/logm/SDP routines inside LAPACK/CVX (compiled numerical code with data-dependent iteration); a symbolic real-algebraic model of them would replace the code under test')
P('P92', 'HTML/PDF reports show the computed results',
  'Every figure and table in a report shows the value computed for the estimate it names.', 'all results', ['pygsti/report'], [('reports', 'pygsti/report')],
  na='string templating and plotly/JS rendering over the whole results object; the deciding observables live in external renderers')
