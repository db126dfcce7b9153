NOTES = {
 'P01': 'a circuit is modelled as a list of layers, a layer as a list of (name, lines, args, time); each operation has a list-of-lists specification; the layer patterns are chosen by the solver, names/arguments/times are symbolic.',
 'P02': 'per-line sequences of gates before and after the rewrite are equal (commutation on disjoint lines); compression relations are the multiplication table of S3, and products are compared.',
 'P03': 'parse(print(c)) == c and the independent model of the content; all printer paths incl. times, arguments, sub-circuits and repetition.',
 'P06': 'an independent dictionary model of (circuit, time, outcome) -> count with symbolic counts; every query of the data set is compared to it after every mutation sequence.',
 'P07': 'as P06; filters, aggregations, merges and truncations are specified on the dictionary model.',
 'P09': 'the index set of a slice is computed by range(); results compared as index lists for all symbolic start/stop/step in the bounds.',
 'P10': 'the MPI communicator is replaced by an in-process stand-in whose ranks are run one after another; ownership of every element is asserted to be exactly one.',
 'P12': 'each tree is evaluated abstractly on its own evaluation order and every final element must equal the product of the requested circuit; sub-trees likewise.',
 'P13': 'matrix products written out by the harness for symbolic gates, states and effects; both calculators (matrix, map) and the polynomial/term calculator where available.',
 'P14': 'forward-mode jets (`checks/jet.py`) over the symbolic parameters through from_vector/probs give exact derivatives; compared with deriv_wrt_params, hessian_wrt_params, bulk_dprobs, bulk_hprobs.',
 'P17': 'explicit Pauli conjugation tables over symbolic bits; symplectic matrices restricted to the group by the symplectic condition.',
 'P18': 'explicit state vectors of stabilizer states; measurement probabilities and post-measurement frames compared for all outcomes.',
 'P23': 'textbook formulas for chi2 and logl (with the documented clipping and radius regularisation) in the symbolic probabilities and counts.',
 'P25': 'Holm/Hochberg/Benjamini–Hochberg and closed-graph procedures are re-specified on sorted symbolic p-values.',
 'P26': 'the stated product set preparation × germ power × measurement is enumerated by the harness and compared as sets, together with nesting, duplicates, plaquette positions and truncation.',
 'P28': 'decode(encode(x)) is structurally equal to x through JSON and MessagePack for values built by a symbolic choice of container, nesting and leaf, incl. models (equal parameters, probabilities and shared parameters after changing them).',
 'P36': 'log-likelihood ratios, divergences and distances are written out over symbolic counts (log uninterpreted); the chi-squared functions are uninterpreted with checked arguments; the verdicts are compared with the set-based definitions of P25.',
 'P37': 'the summary statistics are written out from the symbolic counts handed to a real DataSet, the statistics over circuits, widths and passes from these; curve_fit is a stand-in that records what is fitted and returns arbitrary parameters.',
 'P38': 'every spectrum is compared with the written-out cosine or Fourier sums of the standardized symbolic data (scipy transforms replaced by their defining sums), trajectories with the sums of their basis functions, chi-squared calls by their arguments.',
 'P33': 'probabilities of the transformed model equal the original ones for symbolic gauge elements; gauge-optimisation objective functions are compared with their formulas at symbolic models.',
}
SEEDS = {}
