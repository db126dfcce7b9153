"""P37: benchmarking protocols (protocols/rb)."""
import itertools
import math
import types
import numpy as np
from symex.harness import harness, land, lor, lnot, ite
from pygsti.objects.circuit import Circuit
from pygsti.objects.dataset import DataSet
from pygsti.objects.multidataset import MultiDataSet
from pygsti.protocols import rb, protocol as proto
from pygsti.algorithms import rbfit

MODS = ['pygsti.protocols.rb', 'pygsti.protocols.protocol', 'pygsti.algorithms.rbfit', 'pygsti.objects.dataset', 'pygsti.objects.multidataset', 'pygsti.tools.rbtools', 'pygsti.tools.nameddict']
META = {'assumptions': ['counts are whole numbers in 0..1000 (exact in float32), the circuits, ideal outcomes and depths come from small concrete designs chosen by the solver; '
                        'scipy.optimize.curve_fit is replaced by a stand-in that returns arbitrary parameters and records what it is given (whether the least-squares optimum is reached is not decided)']}
COMMON = dict(modules=MODS, kinds='f')
Q = ('Q0', 'Q1', 'Q2')


def outs(n):
    return [''.join(x) for x in itertools.product('01', repeat=n)]


def circ(k, n):
    return Circuit(['{}', 'Gx:Q0', 'Gx:Q0Gy:Q0', 'Gy:Q0', 'Gi:Q0Gx:Q0Gy:Q0'][k], line_labels=Q[:n])


def hamming(a, b):
    return sum(x != y for x, y in zip(a, b))


class Row(object):
    """a circuit with its counts and its ideal outcome"""

    def __init__(self, cx, nm, k, n, ideal, few, empty=False, tot=None):
        self.c, self.n, self.ideal = circ(k, n), n, ideal
        self.counts = {}
        self.empty = empty
        for o in outs(n):
            if empty or few and hamming(o, ideal) not in (0, n):
                continue  # outcomes never seen
            self.counts[o] = cx.int('%s_%s' % (nm, o), 0 if o != ideal else 1, 1000 if tot is None else tot) / 1 if tot is None or o == ideal else None
        if tot is not None and not empty:  # two outcomes, a given total
            self.counts = {o: tot - self.counts[ideal] if v is None else v for o, v in self.counts.items()}
        self.total = sum(self.counts.values())
        self.hits = self.counts.get(ideal, 0)
        self.dist = [sum(v for o, v in self.counts.items() if hamming(o, ideal) == d) for d in range(n + 1)]

    def values(self):
        if self.empty:
            return {'success_counts': 0, 'total_counts': 0, 'success_probabilities': math.nan, 'hamming_distance_counts': self.dist, 'adjusted_success_probabilities': math.nan}
        return {'success_counts': self.hits, 'total_counts': self.total, 'success_probabilities': self.hits / self.total, 'hamming_distance_counts': self.dist,
                'adjusted_success_probabilities': sum((-0.5)**d * x for d, x in enumerate(self.dist)) / self.total}


def dataset(rows, n):
    labels = sorted(set(o for m in n for o in outs(m)))
    ds = DataSet(outcomeLabels=labels)
    for r in rows:
        ds.add_count_dict(r.c, dict(r.counts))
    ds.done_adding_data()
    return ds


def design(depths, lists, n):
    return rb.BenchmarkingDesign(depths, [[r.c for r in l] for l in lists], [[(r.ideal,) for r in l] for l in lists], qubit_labels=Q[:n])


def isnan(x):
    return not hasattr(x, 'd') and isinstance(x, float) and math.isnan(x)


def same(cx, a, b, what):
    if isinstance(b, list):
        cx.check(len(a) == len(b), what + ': number of values')
        for x, y in zip(a, b):
            same(cx, x, y, what)
    elif isnan(b):
        cx.check(isnan(a) or bool(np.isnan(a)), what + ': not defined without data')
    else:
        cx.check(not isnan(a), what + ': not a number')
        cx.check_close(a, b, what, 1e-6)


SHAPES = {'1': (1, [0, 2], [[0, 1], [2]]), '2': (2, [1, 0, 4], [[1], [0], [4, 3]]), '3': (3, [2], [[2, 0]])}


def build(cx, shape, few, empties=True, nm='n', tots=False):
    n, depths, ks = SHAPES[shape]
    empty = cx.choice(nm + 'empty', [None, 0, 1]) if empties else None
    flip = cx.choice(nm + 'ideal', [0, 1])
    lists, j = [], 0
    for l in ks:
        rows = []
        for k in l:
            ideal = ['0' * n, ('01' * n)[1:n + 1]][(j + flip) % 2]
            rows.append(Row(cx, '%s%d' % (nm, j), k, n, ideal, few, empty == j, [100, 250, 80, 1000][j % 4] if tots else None))
            j += 1
        lists.append(rows)
    return n, depths, lists


@harness(params=[dict(shape=s, few=f) for s in '12' for f in (False, True)], thorough_params=[dict(shape='3', few=f) for f in (False, True)], limit=120,
         encodes=['Benchmark.compute_summary_data', 'Benchmark.compute_dict', 'rbtools.hamming_distance', 'DataSetRow.*'],
         bounds='1-2 qubits (thorough: 3), up to four circuits at up to three depths, every count in 0..1000 (the ideal outcome seen at least once), outcomes never seen, circuits without data', **COMMON)
def summary(cx):
    """success and total counts, success probabilities, and Hamming-distance counts of every circuit"""
    n, depths, lists = build(cx, cx.p['shape'], cx.p['few'])
    data = proto.ProtocolData(design(depths, lists, n), dataset([r for l in lists for r in l], [n]))
    out = rb.Benchmark('b').compute_summary_data(data)
    cx.check(set(out) == {'success_counts', 'total_counts', 'success_probabilities', 'hamming_distance_counts', 'adjusted_success_probabilities'}, 'kinds of summary data')
    for kind in out:
        cx.check(list(out[kind].keys()) == depths, 'depths of the summary data')
        for d, l in zip(depths, lists):
            same(cx, out[kind][d], [r.values()[kind] for r in l], kind)


def rescaled(x, n, how):
    return (x - 0.5**n) / (1 - 0.5**n) if how == 'auto' else 3 * x + n if how == 'custom' else x


def combine(cx, vals, stat):
    good = [v for v in vals if not isnan(v)]
    if stat == 'dist':
        return vals if good else math.nan
    if not good:
        return math.nan
    if stat == 'mean':
        return sum(good) / len(good)
    r = good[0]
    for g in good[1:]:
        r = ite(g > r, g, r) if 'max' in stat else ite(g < r, g, r)
    return r


def custom(data, width):
    return [3 * x + width for x in data]


STATS = ['mean', 'max', 'min', 'dist', 'minmin', 'maxmax']


@harness(params=[dict(shape=s, stat=t) for s in '12' for t in STATS], limit=200,
         encodes=['VolumetricBenchmark.run', 'VolumetricBenchmark._set_rescale_function', 'Benchmark.compute_summary_data', 'Benchmark.create_depthwidth_dict'],
         bounds='1-2 qubits, up to four circuits (with given totals for minima and maxima), success or adjusted success probabilities or success counts, rescaling automatic, none or given, all depths or a list of depths (in any order, some without data)', **COMMON)
def volumetric(cx):
    """the volumetric benchmark of every depth is the stated statistic of the (rescaled) values of its circuits"""
    stat = cx.p['stat']
    n, depths, lists = build(cx, cx.p['shape'], True, tots='m' in stat[:1] and stat != 'mean')
    kind = cx.choice('kind', ['success_probabilities', 'adjusted_success_probabilities', 'success_counts'])
    how = cx.choice('rescaler', ['auto', 'none', 'custom'])
    sel = cx.choice('depths', ['all', [depths[-1], 99, depths[0]], [depths[-1]]])
    data = proto.ProtocolData(design(depths, lists, n), dataset([r for l in lists for r in l], [n]))
    r = rb.VolumetricBenchmark(sel, kind, stat, custom if how == 'custom' else how).run(data)
    want = depths if sel == 'all' else [d for d in sel if d in depths]
    cx.check(list(r.volumetric_benchmarks.keys()) == want and list(r.failure_counts.keys()) == want, 'depths of the benchmark')
    for d in want:
        vals = [row.values()[kind] for row in lists[depths.index(d)]]
        bad = sum(isnan(v) for v in vals)
        eff = how if how != 'auto' or kind == 'success_probabilities' else 'none'
        cx.check(list(r.volumetric_benchmarks[d].keys()) == [n], 'width of the benchmark')
        same(cx, r.volumetric_benchmarks[d][n], combine(cx, [v if isnan(v) else rescaled(v, n, eff) for v in vals], stat), stat + ' of the circuits of a depth')
        cx.check(tuple(r.failure_counts[d][n]) == (len(vals) - bad, bad), 'numbers of circuits with and without data')


def grid_expected(cx, cells, stat):
    """minimum/maximum over all smaller/larger shapes"""
    if stat not in ('minmin', 'maxmax'):
        return cells
    out = {}
    for (d, w) in cells:
        out[d, w] = combine(cx, [v for (e, x), v in cells.items() if ((e <= d and x <= w) if stat == 'minmin' else (e >= d and x >= w))], stat)
    return out


@harness(params=[dict(stat=t, paths=p) for t in STATS for p in ('all', 'given')], limit=200,
         encodes=['VolumetricBenchmarkGrid.run', 'VolumetricBenchmarkGridPP.run', 'VolumetricBenchmarkGridPP._update_vb_minmin_maxmax', 'VolumetricBenchmark.run', 'SimpleRunner.run', 'CombinedExperimentDesign.create_subdata', 'ProtocolData.filter_paths'],
         bounds='given totals, designs of 1 and 2 qubits with two depths each (one in common), a subset of the widths and depths', **COMMON)
def grid(cx):
    """the grid holds the benchmark of every selected depth and width"""
    stat = cx.p['stat']
    l1 = [[Row(cx, 'a', 0, 1, '0', True, tot=100), Row(cx, 'b', 1, 1, '1', True, tot=250)], [Row(cx, 'c', 2, 1, '0', True, tot=80)]]
    l2 = [[Row(cx, 'd', 2, 2, '10', True, tot=1000)], [Row(cx, 'e', 4, 2, '00', True, tot=500)]]
    comb = proto.CombinedExperimentDesign({'one': design([0, 2], l1, 1), 'two': design([2, 5], l2, 2)}, qubit_labels=Q[:2])
    ds = dataset([r for l in l1 + l2 for r in l], [1, 2])
    widths = cx.choice('widths', ['all', [2], [1, 2, 3]])
    dsel = cx.choice('depths', ['all', [5, 2], [0]])
    agg = cx.choice('aggregate', [True, False])
    paths = 'all' if cx.p['paths'] == 'all' else cx.choice('path', [[('two',), ('one',)], [('one',)]])
    r = rb.VolumetricBenchmarkGrid(dsel, widths, 'success_probabilities', paths, stat, agg, name=cx.choice('name', [None, 'g'])).run(proto.ProtocolData(comb, ds))
    cells = {}
    for n, ds_, ls, nm in ((1, [0, 2], l1, 'one'), (2, [2, 5], l2, 'two')):
        if (widths == 'all' or n in widths) and (paths == 'all' or (nm,) in paths):
            for d, l in zip(ds_, ls):
                if dsel == 'all' or d in dsel:
                    cells[d, n] = combine(cx, [rescaled(x.values()['success_probabilities'], n, 'auto') for x in l], stat)
    sizes = {(d, n): len(l) for n, ds_, ls in ((1, [0, 2], l1), (2, [2, 5], l2)) for d, l in zip(ds_, ls)}
    compare(cx, r, grid_expected(cx, cells, stat), sizes)


def compare(cx, r, want, sizes):
    got = {(d, w): r.volumetric_benchmarks[d][w] for d in r.volumetric_benchmarks.keys() for w in r.volumetric_benchmarks[d].keys()}
    cx.check(set(got) == set(want), 'depths and widths of the grid')
    for k in want:
        same(cx, got[k], want[k], 'benchmark of a depth and width')
        cx.check(tuple(r.failure_counts[k[0]][k[1]]) == (sizes[k], 0), 'numbers of circuits with and without data')


@harness(params=[dict(stat=t) for t in STATS], limit=200,
         encodes=['VolumetricBenchmarkGrid.run', 'VolumetricBenchmarkGridPP.run', 'MultiPassProtocol.run', 'MultiPassProtocol.__init__', 'SimpleRunner.run', 'MultiDataSet.*'],
         bounds='given totals, one qubit, two depths, two passes', **COMMON)
def passes(cx):
    """several passes give one benchmark per pass, or the statistic over the passes"""
    stat = cx.p['stat']
    agg = cx.choice('aggregate', [True, False])
    ls = [[[Row(cx, 'a%d' % p, 0, 1, '0', True, tot=100)], [Row(cx, 'b%d' % p, 2, 1, '1', True, tot=250), Row(cx, 'c%d' % p, 3, 1, '0', True, tot=80)]] for p in range(2)]
    m = MultiDataSet(outcomeLabels=[('0',), ('1',)])
    for p in range(2):
        m.add_dataset('P%d' % p, dataset([r for l in ls[p] for r in l], [1]))
    r = rb.VolumetricBenchmarkGrid(statistic=stat, aggregate=agg).run(proto.ProtocolData(design([3, 1], ls[0], 1), m))
    per = [{(d, 1): combine(cx, [rescaled(x.values()['success_probabilities'], 1, 'auto') for x in l], stat) for d, l in zip([3, 1], ls[p])} for p in range(2)]
    if not agg:
        cx.check(sorted(r.passes) == ['P0', 'P1'], 'one result per pass')
        for p in range(2):
            compare(cx, r.passes['P%d' % p], grid_expected(cx, per[p], stat), {(3, 1): 1, (1, 1): 2})
        return
    if stat == 'dist':
        cells = {k: per[0][k] + per[1][k] for k in per[0]}
    else:
        cells = {k: combine(cx, [per[0][k], per[1][k]], stat) for k in per[0]}
    compare(cx, r, grid_expected(cx, cells, stat), {(3, 1): 2, (1, 1): 4})


class Fit(object):
    """stand-in for scipy.optimize.curve_fit"""

    def __init__(self, cx):
        self.cx, self.calls = cx, []

    def __call__(self, f, xs, ys, p0=None, bounds=None):
        k = len(self.calls)
        names = f.__code__.co_varnames[1:f.__code__.co_argcount]
        out = [self.cx.real('fit%d%s' % (k, v), 0, 1) for v in names]
        fail = self.cx.choice('fail%d' % k, [False, True])
        self.calls.append(dict(f=f, names=list(names), xs=[int(x) for x in xs], ys=list(ys), p0=list(np.ravel(p0)) if not hasattr(p0, 'd') else [p0], bounds=bounds, out=out, fail=fail))
        if fail:
            raise RuntimeError('no convergence')
        return self.cx.array(out, (len(out),), 'f'), None


class fitting(object):
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.old, rbfit._curve_fit = rbfit._curve_fit, self.f
        return self.f

    def __exit__(self, *a):
        rbfit._curve_fit = self.old


def rate(p, n, rtype):
    d = 2**n
    return (1 - p) * (d * d - 1) / (d * d) if rtype == 'EI' else (1 - p) * (d - 1) / d


@harness(params=[dict(shape=s, kind=k) for s in '12' for k in ('success_probabilities', 'adjusted_success_probabilities')], limit=200,
         encodes=['RandomizedBenchmarking.run', 'rbfit.std_least_squares_data_fitting', 'rbfit.custom_least_squares_data_fitting', 'rbtools.p_to_r', 'Benchmark.compute_summary_data'],
         bounds='1-2 qubits, up to four circuits at up to three depths, both error-rate conventions, standard or given asymptote, all depths or a list', **COMMON)
def decay(cx):
    """the fitted decay is that of the averages over the circuits of each depth, and the rate that of the convention"""
    n, depths, lists = build(cx, cx.p['shape'], cx.p['kind'] == 'success_probabilities', False)
    kind = cx.p['kind']
    rtype = cx.choice('rtype', ['EI', 'AGI'])
    asym = cx.choice('asymptote', ['std', 0.3])
    sel = cx.choice('depths', ['all', [depths[-1], 99, depths[0]]])
    data = proto.ProtocolData(design(depths, lists, n), dataset([r for l in lists for r in l], [n]))
    with fitting(Fit(cx)) as fit:
        try:
            res = rb.RandomizedBenchmarking(kind, asymptote=asym, rtype=rtype, seed=(0.8, 0.95), bootstrap_samples=0, depths=sel).run(data)
        except KeyError:
            cx.check(fit.calls[0]['fail'], 'the analysis only fails when the first fit fails')
            return
    want = depths if sel == 'all' else [d for d in sel if d in depths]
    avg = [combine(cx, [r.values()[kind] for r in lists[depths.index(d)]], 'mean') for d in want]
    A = asym if asym != 'std' else 0.5**n if kind == 'success_probabilities' else 0.25**n
    cx.check(list(res.depths) == want, 'depths of the result')
    cx.check(len(fit.calls) == 2, 'two fits')
    for c in fit.calls:
        cx.check(c['xs'] == want, 'depths given to the fit')
        same(cx, c['ys'], avg, 'averages given to the fit')
    fa, ff = fit.calls
    cx.check(fa['names'] == ['B', 'p'] and ff['names'] == ['A', 'B', 'p'], 'parameters of the fits')
    x = [cx.real('x%d' % i, 0, 1) for i in range(3)]
    cx.check_close(fa['f'](3, x[0], x[1]), A + x[0] * x[1]**3, 'decay with fixed asymptote')
    cx.check_close(ff['f'](3, x[2], x[0], x[1]), x[2] + x[0] * x[1]**3, 'decay with all parameters')
    same(cx, fa['p0'], [0.8, 0.95], 'starting point of the first fit')
    same(cx, ff['p0'], [A] + fa['out'], 'the full fit starts at the fit with fixed asymptote')
    for nm, c, pars in (('A-fixed', fa, [A] + fa['out']), ('full', ff, ff['out'])):
        f = res.fits[nm]
        cx.check(bool(f.success) == (not c['fail']), 'success of a fit')
        cx.check(f.rtype == rtype, 'convention of the rate')
        if not c['fail']:
            for k, v in zip('ABp', pars):
                cx.check_close(f.estimates[k], v, 'estimate ' + k)
            cx.check_close(f.estimates['r'], rate(pars[2], n, rtype), 'error rate of the convention')


@harness(params=[dict(A=a, B=b) for a in (None, 0.25) for b in (None, 0.5)], encodes=['rbfit.custom_least_squares_data_fitting'], limit=60,
         bounds='every combination of fixed and free parameters, three lengths with arbitrary averages, starting point given or standard, 1-2 qubits', **COMMON)
def fits(cx):
    """a fit varies exactly the free parameters"""
    a, b = cx.p['A'], cx.p['B']
    n, rtype = cx.choice('n', [1, 2]), cx.choice('rtype', ['EI', 'AGI'])
    ys = [cx.real('y%d' % i, 0, 1) for i in range(3)]
    free = [k for k, v in zip('ABp', (a, b, None)) if v is None]
    seed = cx.choice('seed', [None, [0.3, 0.6, 0.7][3 - len(free):]])
    with fitting(Fit(cx)) as fit:
        r = rbfit.custom_least_squares_data_fitting([1, 4, 7], cx.array(ys, (3,), 'f'), n, A=a, B=b, seed=seed, rtype=rtype)
    c = fit.calls[0]
    cx.check(len(fit.calls) == 1 and c['names'] == free and c['xs'] == [1, 4, 7], 'parameters and lengths of the fit')
    same(cx, c['ys'], ys, 'averages given to the fit')
    std = {'A': 0.5**n, 'B': 1 - (0.5**n if a is None else a), 'p': 0.9}
    same(cx, c['p0'], seed or [std[k] for k in free], 'starting point')
    cx.check(r['variable'] == {k: k in free for k in 'ABp'}, 'free parameters')
    cx.check(bool(r['success']) == (not c['fail']), 'success')
    x = {k: cx.real('x' + k, 0, 1) for k in 'ABp'}
    val = dict(x, **{k: v for k, v in zip('AB', (a, b)) if v is not None})
    cx.check_close(c['f'](2, *[x[k] for k in free]), val['A'] + val['B'] * val['p']**2, 'decay curve')
    if not c['fail']:
        got = dict(zip(free, c['out']))
        for k, v in zip('ABp', (a, b, None)):
            cx.check_close(r['estimates'][k], got[k] if k in got else v, 'estimate ' + k)
        cx.check_close(r['estimates']['r'], rate(got['p'], n, rtype), 'error rate')
    else:
        cx.check(r['estimates'] == {}, 'no estimates without success')


@harness(encodes=['Benchmark.compute_dscmp_data', 'VolumetricBenchmark.run'], limit=60, bounds='three circuits at two depths with arbitrary statistics, one of them not compared; hypothesis tests run or not', **COMMON)
def compared(cx):
    """benchmarks of the statistics of a data comparison"""
    n, depths, lists = build(cx, '1', True, False)
    cs = [r.c for l in lists for r in l]
    missing = cx.choice('missing', [None, 0, 2])
    tested = cx.choice('tested', [True, False])
    kinds = {'tvds': 'tvds', 'pvals': 'pVals', 'jsds': 'jsds', 'llrs': 'llrs'}
    vals = {k: {c: cx.real('%s%d' % (k, i), 0, 1) for i, c in enumerate(cs) if i != missing} for k in list(kinds) + ['sstvds']}
    comp = types.SimpleNamespace(**{a: vals[k] for k, a in kinds.items()})
    comp.sstvds = vals['sstvds'] if tested else None
    kind = cx.choice('kind', list(kinds) + ['sstvds'] * tested)
    stat = cx.choice('stat', ['mean', 'max', 'dist'])
    data = proto.ProtocolData(design(depths, lists, n), dataset([r for l in lists for r in l], [n]))
    r = rb.VolumetricBenchmark('all', kind, stat, dscomparator=comp).run(data)
    for d, l in zip(depths, lists):
        same(cx, r.volumetric_benchmarks[d][n], combine(cx, [vals[kind].get(x.c, math.nan) for x in l], stat), 'statistic of a depth')


SIM = [[Circuit(s, line_labels=('Q0',)) for s in ('{}', 'Gx:Q0', 'Gx:Q0Gy:Q0', 'Gi:Q0')], [Circuit(s, line_labels=('Q1',)) for s in ('{}', 'Gx:Q1', 'Gy:Q1Gy:Q1Gx:Q1')]]


@harness(params=[dict(order=o) for o in (None, ('Q1', 'Q0'), ('Q0', 'Q1'))], limit=200,
         encodes=['SimultaneousExperimentDesign.__init__', 'SimultaneousExperimentDesign.create_subdata', 'ProtocolData._create_childval', 'filter_dataset', 'DataSet.process_circuits', 'DataSet.merge_outcomes'],
         bounds='two one-qubit designs of 1-3 circuits of 0-3 layers (repetitions included), either order of the qubits, every count in 0..1000', modules=MODS + ['pygsti.construction.datasetconstruction'], kinds='f')
def simultaneous(cx):
    """the data of a design that ran simultaneously with another is the marginal of the data"""
    a = cx.choice('first', [[0, 1], [1, 0], [2, 1], [0, 1, 2], [1, 1], [0, 2, 3], [3, 0], [2]])
    b = cx.choice('second', [[0, 1], [1, 0], [2, 1], [2], [1, 1], [2, 0, 1]])
    lists = (a, b)
    des = [proto.ExperimentDesign([SIM[j][i] for i in l], qubit_labels=('Q%d' % j,)) for j, l in enumerate(lists)]
    sim = proto.SimultaneousExperimentDesign(des, qubit_labels=cx.p['order'])
    order = cx.p['order'] or ('Q0', 'Q1')
    cs = sim.all_circuits_needing_data
    cx.check(len(cs) == max(map(len, lists)) and all(tuple(c.line_labels) == order for c in cs), 'the circuits run simultaneously')
    ds = DataSet(outcomeLabels=outs(2))
    want = [{i: {'0': 0, '1': 0} for i in l} for l in lists]
    tab = [[cx.int('n%d%s' % (k, o), 0 if o != '01' else 1, 1000) / 1 for o in outs(2)] for k in range(len(cs))]
    for k, c in enumerate(cs):
        ds.add_count_dict(c, dict(zip(outs(2), tab[k])))
        for j, l in enumerate(lists):
            if k < len(l):
                mine = [g for g in c if len(g.sslbls or ()) and g.sslbls == ('Q%d' % j,) or any(x.sslbls == ('Q%d' % j,) for x in g.components)]
                cx.check(len(mine) == len([g for g in SIM[j][l[k]] if len(g.components)]), 'every design contributes its layers')
                for o, v in zip(outs(2), tab[k]):
                    bit = o[order.index('Q%d' % j)]
                    want[j][l[k]][bit] = want[j][l[k]][bit] + v
    ds.done_adding_data()
    data = proto.ProtocolData(sim, ds)
    for j, l in enumerate(lists):
        sub = data['Q%d' % j,]
        cx.check(sub.edesign is des[j], 'design of the data')
        cx.check(set(sub.dataset.keys()) >= set(SIM[j][i] for i in l), 'circuits of the data')
        for i in set(l):
            row = sub.dataset[SIM[j][i]]
            for bit in '01':
                cx.check_close(row.counts.get((bit,), 0), want[j][i][bit], 'marginal counts', 1e-6)


class Draw(object):
    """stand-in for numpy.random: every draw is arbitrary"""

    def __init__(self, cx, counts):
        self.cx, self.counts, self.log, self.k = cx, counts, [], 0

    def randint(self, n):
        self.k += 1
        self.log.append(('i', self.cx.choice('pick%d' % self.k, list(range(n)))))
        return self.log[-1][1]

    def binomial(self, n, p):
        self.k += 1
        v = self.cx.int('hits%d' % self.k, 0, 200) / 1
        self.log.append(('b', n, p, v))
        return v

    def multinomial(self, n, pdf):
        self.k += 1
        v = [self.cx.int('h%d_%d' % (self.k, i), 0, 200) / 1 for i in range(len(pdf))]
        self.log.append(('m', n, list(pdf), v))
        return self.cx.array(v, (len(v),), 'f')


class drawing(object):
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in ('randint', 'binomial', 'multinomial')}
        for k in self.old:
            setattr(np.random, k, getattr(self.d, k))
        return self.d

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)


@harness(params=[dict(finite=f, existing=e) for f in (True, False) for e in (0, 1)], encodes=['Benchmark.add_bootstrap_qtys'], limit=120,
         bounds='two circuits at one depth and one at another, one bootstrap sample (and one that existed), every draw arbitrary', **COMMON)
def bootstrap(cx):
    """a bootstrap sample resamples circuits and counts, and its probabilities are those of its counts"""
    n, depths, lists = build(cx, '1', False, False)
    data = proto.ProtocolData(design(depths, lists, n), dataset([r for l in lists for r in l], [n]))
    b = rb.Benchmark('b')
    cache = b.compute_summary_data(data)
    finite = cx.p['finite']
    key = 'bootstraps' if finite else 'infbootstraps'
    old = object()
    if cx.p['existing']:
        cache[key] = [old]
    with drawing(Draw(cx, None)) as dr:
        b.add_bootstrap_qtys(cache, cx.p['existing'] + 1, finite)
    got = cache[key]
    cx.check(len(got) == cx.p['existing'] + 1 and (got[0] is old) == bool(cx.p['existing']), 'number of samples')
    log = list(dr.log)
    for d, l in zip(depths, lists):
        picks = []
        for k in range(len(l)):
            r = l[log.pop(0)[1]]
            v = r.values()
            g = {kind: got[-1][kind][d] for kind in rb.Benchmark.summary_datatypes}
            if finite:
                first, second = log.pop(0), log.pop(0)
                bi, mu = (first, second) if first[0] == 'b' else (second, first)
                cx.check(bi[0] == 'b' and mu[0] == 'm', 'draws')
                same(cx, [bi[1], bi[2]], [r.total, v['success_probabilities']], 'distribution of the success counts')
                same(cx, [mu[1]] + mu[2], [r.total] + [x / r.total for x in r.dist], 'distribution of the Hamming-distance counts')
                same(cx, g['success_counts'][k], bi[3], 'resampled success counts')
                same(cx, g['total_counts'][k], r.total, 'total counts')
                same(cx, g['success_probabilities'][k], bi[3] / r.total, 'resampled success probability')
                same(cx, list(g['hamming_distance_counts'][k]), mu[3], 'resampled Hamming-distance counts')
                same(cx, g['adjusted_success_probabilities'][k], sum((-0.5)**i * x for i, x in enumerate(mu[3])) / r.total, 'resampled adjusted success probability')
            else:
                same(cx, g['success_probabilities'][k], v['success_probabilities'], 'success probability')
                same(cx, g['adjusted_success_probabilities'][k], v['adjusted_success_probabilities'], 'adjusted success probability')
                same(cx, list(g['hamming_distance_counts'][k]), [x / r.total for x in r.dist], 'Hamming-distance distribution')
        cx.check(all(len(got[-1][kind][d]) == len(l) for kind in ('success_probabilities', 'adjusted_success_probabilities', 'hamming_distance_counts', 'success_counts')), 'as many values as circuits')
    cx.check(not log, 'no further draws')
