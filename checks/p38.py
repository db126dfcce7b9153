"""P38: drift analysis: spectra, thresholds and probability trajectories (extras/drift)."""
import itertools
import math
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.extras.drift import signal as S, probtrajectory as T
from pygsti.objects.circuit import Circuit
from pygsti.objects.dataset import DataSet
from pygsti.objects.multidataset import MultiDataSet
from checks.p36 import Chi2, lg

MODS = ['pygsti.extras.drift.signal', 'pygsti.extras.drift.probtrajectory', 'pygsti.objects.dataset', 'pygsti.objects.multidataset']
META = {'assumptions': ['the fast cosine and Fourier transforms of scipy and its convolution are replaced by their defining sums; the chi-squared functions are uninterpreted with checked arguments; log is an '
                        'uninterpreted function; the Lomb-Scargle periodogram (astropy, not installed) and the numerical maximum-likelihood search are outside']}
COMMON = dict(modules=MODS, kinds='fc')
PI = math.pi


def cosines(n, norm):
    s = [math.sqrt((1 if k == 0 else 2) / n) if norm == 'ortho' else 2 for k in range(n)]
    return [[s[k] * math.cos(PI * k * (2 * j + 1) / (2 * n)) for j in range(n)] for k in range(n)]


class transforms(object):
    """scipy's transforms, by definition"""

    def __init__(self, cx):
        self.cx = cx

    def lin(self, m, x, kind='f'):
        x = list(x)
        return self.cx.array([sum((c * v for c, v in zip(row, x)), 0.) for row in m], (len(x),), kind)

    def dct(self, x, type=2, norm=None):
        return self.lin(cosines(len(x), norm), x)

    def idct(self, x, type=2, norm=None):
        assert norm == 'ortho'
        return self.lin([list(c) for c in zip(*cosines(len(x), norm))], x)

    def fft(self, x, sign=-1, scale=1.):
        n = len(x)
        return self.lin([[scale * complex(math.cos(2 * PI * k * j / n), sign * math.sin(2 * PI * k * j / n)) for j in range(n)] for k in range(n)], x, 'c')

    def ifft(self, x):
        return self.fft(x, 1, 1. / len(x))

    def convolve(self, a, b, mode='full'):
        a, b = list(a), list(b)
        full = [sum(a[j] * b[k - j] for j in range(len(a)) if 0 <= k - j < len(b)) for k in range(len(a) + len(b) - 1)]
        if mode == 'same':
            n, s = max(len(a), len(b)), (min(len(a), len(b)) - 1) // 2
            full = full[s:s + n]
        return self.cx.array(full, (len(full),), 'f')

    NAMES = ('dct', 'idct', 'fft', 'ifft', 'convolve')

    def __enter__(self):
        self.old = {k: getattr(S, '_' + k) for k in self.NAMES}
        for k in self.NAMES:
            setattr(S, '_' + k, getattr(self, k))
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(S, '_' + k, v)


def vec(cx, nm, n, hi, free=None):
    return [cx.real('%s%d' % (nm, i), 0, hi) if free is None or i in free else hi * (0.1 + 0.07 * i) for i in range(n)]


def arr(cx, l, kind='f'):
    return cx.array(list(l), (len(l),), kind)


NULLS = {3: [0.25, 0.5, 0.7], 4: [0.2, 0.5, 0.5, 0.9], 5: [0.3] * 5, 6: [0.2, 0.3, 0.4, 0.5, 0.6, 0.7]}


def modes_of(transform, z):
    n = len(z)
    if transform == 'dct':
        return [(sum(c * v for c, v in zip(row, z)), 0.) for row in cosines(n, 'ortho')]
    return [tuple(sum(f(2 * PI * k * j / n) * z[j] for j in range(n)) / math.sqrt(n) for f in (math.cos, lambda t: -math.sin(t))) for k in range(n)]


@harness(params=[dict(tr=t, n=n, null=u) for t in ('dct', 'dft') for n in (3, 4) for u in (True, False)], thorough_params=[dict(tr=t, n=6, null=u) for t in ('dct', 'dft') for u in (True, False)], limit=240,
         encodes=['signal.spectrum', 'signal.standardizer', 'signal.unstandardizer', 'signal.dct', 'signal.idct', 'signal.dft', 'signal.idft', 'signal.fourier_frequencies_from_times', 'signal.frequencies_from_timestep'],
         bounds='3-4 points (thorough: 6; Fourier transforms of more than 3 points: two of the values) with values in [0, counts], counts 1 or 5, null hypothesis given or the mean, every list of times', **COMMON)
def spectra(cx):
    """powers are the squared modes of the standardized data; the transforms invert"""
    tr, n, null = cx.p['tr'], cx.p['n'], cx.p['null']
    counts = cx.choice('counts', [1, 5])
    x = vec(cx, 'x', n, counts, (0, n - 1) if tr == 'dft' and n > 3 else None)
    t = vec(cx, 't', n, 100)
    for a, b in zip(t, t[1:]):
        cx.assume(b - a > 0.5)
    with transforms(cx):
        h = arr(cx, NULLS[n]) if null else None
        if not null:
            edge = cx.choice('edge', [None, 0, counts])
            if edge is not None:
                x = [float(edge)] * n
            else:
                cx.assume(land(sum(x) > 0.01, sum(x) < counts * n - 0.01))
        fr = cx.choice('frequencies', ['auto', 'given', 'no'])
        r = S.spectrum(arr(cx, x), times=arr(cx, t) if fr != 'no' else None, null_hypothesis=h, counts=counts, transform=tr, frequencies=[3, 4] if fr == 'given' else 'auto')
        freqs, modes, powers = r
        m2, p2 = S.spectrum(arr(cx, x), null_hypothesis=h, counts=counts, transform=tr, returnfrequencies=False)
        if fr == 'auto':
            step = (t[-1] - t[0]) / (n - 1)
            for k in range(n):
                cx.check_close(freqs[k] * 2 * step * n, k, 'frequencies', 1e-6)
        else:
            cx.check(freqs is None if fr == 'no' else list(freqs) == [3, 4], 'frequencies given')
        if not null and edge is not None:
            cx.check(list(powers) == [0.] + [1.] * (n - 1), 'constant data at 0 or 1')
            return
        if null:
            z = [(v - counts * u) / math.sqrt(counts * u * (1 - u)) for v, u in zip(x, NULLS[n])]
            norm2 = 1
        else:
            mean = sum(x) / n
            z = [v - mean for v in x]
            norm2 = mean * (1 - mean / counts)
        want = modes_of(tr, z)
        for k in range(n):
            cx.check_close(powers[k] * norm2, want[k][0]**2 + want[k][1]**2, 'power of a mode', 1e-5)
            cx.check_close(powers[k], p2[k], 'same powers without frequencies', 1e-6)
            if null:
                cx.check_close(modes[k], want[k][0] + want[k][1] * 1j if tr == 'dft' else want[k][0], 'mode', 1e-6)
        if null:
            back = (S.idct if tr == 'dct' else S.idft)(modes, h, counts)
            for a, b in zip(back, x):
                cx.check_close(a, b, 'the inverse transform gives the data', 1e-6)
    cx.check_raises(lambda: S.spectrum(arr(cx, x), transform='xyz'), 'unknown transform', ValueError)


@harness(params=[dict(n=n, k=k) for n, k in ((6, 2), (7, 2), (9, 3))], encodes=['signal.bartlett_spectrum', 'signal.spectrum'], limit=240,
         bounds='6, 7 or 9 points in 2-3 chunks, 3-5 of them symbolic, counts 1 or 4, both transforms', **COMMON)
def bartlett(cx):
    """the average of the power spectra of the chunks"""
    n, k = cx.p['n'], cx.p['k']
    tr = cx.choice('transform', ['dct', 'dft'])
    counts = cx.choice('counts', [1, 4])
    given = cx.choice('null', [True, False])
    l = n // k
    free = (0, l, n - 2) if tr == 'dft' else (0, 1, l, l + 1, n - 2)
    if given:
        x = vec(cx, 'x', n, counts, free)
        u = [0.2 + 0.05 * i for i in range(n)]
    else:
        x = vec(cx, 'x', n - 1, counts, free)
        x.append(counts * n / 2 - sum(x))  # a given mean
        cx.assume(land(x[-1] >= 0, x[-1] <= counts))
        u = [0.5] * n
    z = [(v - counts * p) / math.sqrt(counts * p * (1 - p)) for v, p in zip(x, u)]
    with transforms(cx):
        got = S.bartlett_spectrum(arr(cx, x), k, counts=counts, null_hypothesis=arr(cx, u) if given else None, transform=tr)
    cx.check(len(got) == l, 'number of modes')
    parts = [modes_of(tr, z[i * l:(i + 1) * l]) for i in range(k)]
    for j in range(l):
        cx.check_close(got[j] * k, sum(p[j][0]**2 + p[j][1]**2 for p in parts), 'average power', 1e-5)


class patchchi(object):
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.old, S._chi2 = S._chi2, self.c
        return self.c

    def __exit__(self, *a):
        S._chi2 = self.old


@harness(encodes=['signal.power_significance_threshold', 'signal.power_to_pvalue', 'signal.maxpower_pvalue', 'signal.power_significance_quasithreshold'], limit=60,
         bounds='every power and significance, 1-4 tests, 1 or 3 degrees of freedom', **COMMON)
def thresholds(cx):
    """p-values and thresholds are those of the chi-squared distribution of power times degrees of freedom"""
    dof, m = cx.choice('dof', [1, 3]), cx.choice('tests', [1, 2, 4])
    p, s = cx.real('p', 0, 60), cx.real('s', 0, 1)
    cx.assume(land(s > 0.001, p > 0.001))
    with patchchi(Chi2(cx)) as chi:
        chi.used('cdf', 1 - S.power_to_pvalue(p, dof), p * dof, dof, 'p-value of a power')
        chi.used('isf', S.power_significance_threshold(s, m, dof) * dof, s / m, dof, 'threshold of several tests')
        q = S.power_significance_quasithreshold(s, m, dof)
        cx.check(len(q) == m, 'number of quasi-thresholds')
        for i in range(m):
            chi.used('isf', q[i] * dof, s * (m - i) / m, dof, 'quasi-threshold')
        f = chi.cdf(p * dof, dof)
        cx.check_close(S.maxpower_pvalue(p, m + 1, dof), 1 - f**m, 'p-value of the maximum')
        cx.check_raises(lambda: S.power_significance_quasithreshold(s, m, dof, 'Holms'), 'procedure of a quasi-threshold', ValueError)


@harness(encodes=['signal.get_auto_frequencies', 'signal.frequencies_from_timestep', 'DataSet.get_meantimestep', 'DataSetRow.get_number_of_times'], limit=60,
         bounds='a DataSet or MultiDataSet of two circuits at 2-4 times, one time step per circuit', **COMMON)
def frequencies(cx):
    """automatic frequencies of a data set"""
    n = cx.choice('n', [2, 3, 4])
    step = cx.choice('steps', [(1., 1.), (0.5, 0.5), (2., 4.)])
    ds = DataSet(outcomeLabels=['0', '1'])
    for c, d in zip([Circuit('Gx'), Circuit('Gy')], step):
        ds.add_series_data(c, [{'0': 3, '1': 2}] * n, [7 + i * d for i in range(n)])
    ds.done_adding_data()
    if cx.choice('multi', [False, True]):
        m = MultiDataSet(outcomeLabels=[('0',), ('1',)])
        m.add_dataset('D', ds)
        ds = m
    l, ptr = S.get_auto_frequencies(ds, cx.choice('tr', ['dct', 'dft']))
    cx.check(len(l) == 1 and not ptr and len(l[0]) == n, 'one list of frequencies')
    d = cx.real('d', 0, 10)
    cx.assume(d > 0.1)
    g = S.frequencies_from_timestep(d, n)
    for k in range(n):
        cx.check_close(l[0][k], k / (2 * n * sum(step) / 2), 'frequency of the mean time step')
        cx.check_close(g[k] * 2 * d * n, k, 'frequency of a time step')
    cx.check_raises(lambda: S.get_auto_frequencies(7), 'needs a data set', ValueError)


@harness(params=[dict(n=n) for n in (3, 4)], thorough_params=[dict(n=6)], encodes=['signal.amplitudes_at_frequencies', 'CosineProbTrajectory.basisfunction', 'ProbTrajectory.get_probabilities', 'signal.lowpass_filter'], limit=240,
         bounds='3-4 points (thorough: 6), every subset and order of frequencies of up to 3, every cut-off', **COMMON)
def amplitudes(cx):
    """amplitudes are the coefficients of the cosines: with all frequencies they give back the data"""
    n = cx.p['n']
    x = {o: vec(cx, 'x' + o, n, 1) for o in 'ab'}
    sel = cx.choice('sel', [p for k in (1, 2, 3) for p in itertools.permutations(range(n), k)] + [tuple(range(n))] if n < 5 else [(0, 2, 5), (3, 0), tuple(range(n))])
    start, step = 2.5, 0.5
    times = [start + step * j for j in range(n)]
    with transforms(cx):
        amp = S.amplitudes_at_frequencies(list(sel), {o: arr(cx, v) for o, v in x.items()})
        cut = cx.choice('cut', [None] + list(range(n)))
        low = S.lowpass_filter(arr(cx, x['a']), cut)
    cut = 1 if cut is None else cut
    C = cosines(n, 'ortho')
    co = {o: [sum(c * v for c, v in zip(row, x[o])) for row in C] for o in x}
    for o in x:
        for i, k in enumerate(sel):
            cx.check_close(amp[o][i], co[o][k] * math.sqrt((1 if k == 0 else 2) / n), 'amplitude of a frequency', 1e-6)
    keep = n if cut >= n - 1 else cut + 1
    for j in range(n):
        cx.check_close(low[j], sum(co['a'][k] * C[k][j] for k in range(keep)), 'low-pass filter keeps the lowest modes', 1e-6)
    if sel == tuple(range(n)):
        tr = T.CosineProbTrajectory(['a', 'b', 'c'], sel, amp, start, step, n)
        p = tr.get_probabilities(times, trim=False)
        for o in 'ab':
            for j in range(n):
                cx.check_close(p[o][j], x[o][j], 'all amplitudes give the data', 1e-6)


@harness(encodes=['signal.renormalizer', 'signal.moving_average', 'signal.generate_flat_signal', 'signal.sparsity', 'signal.dct_basisfunction'], limit=240,
         bounds='vectors of 3-5 entries, widths 1-3, power in [0, 4] over 1-2 modes', **COMMON)
def signals(cx):
    """clipping, moving averages, and signals of a stated power"""
    p = [cx.real('p%d' % i, -2, 3) for i in range(3)]
    got = S.renormalizer(arr(cx, p), 'sharp')
    for a, b in zip(got, p):
        cx.check(land(a >= 0, a <= 1, limplies(land(b >= 0, b <= 1), a == b), limplies(b > 1, a == 1), limplies(b < 0, a == 0)), 'clips to [0, 1]')
    cx.check_raises(lambda: S.renormalizer(arr(cx, p), 'x'), 'method', ValueError)
    w = cx.choice('width', [1, 2, 3])
    y = [cx.real('y%d' % i, -1, 1) for i in range(5)]
    with transforms(cx):
        m = S.moving_average(arr(cx, y), w)
        for i in range(5):
            hi = i + (w - 1) // 2
            win = [y[j] for j in range(hi - w + 1, hi + 1) if 0 <= j < 5]
            cx.check_close(m[i], sum(win) / len(win), 'average over the window')
        num = cx.choice('modes', [1, 2])
        power = cx.real('power', 0, 4)
        cand = cx.choice('candidates', [None, [1, 3], [2, 3]])
        old = np.random.choice, np.random.binomial
        given = []

        def pick(c, size=None, replace=True, p=None):
            given.append(([int(v) for v in c], replace))
            return np.array(cx.choice('pick', list(itertools.permutations(given[-1][0], size))))
        np.random.choice, np.random.binomial = pick, lambda n, p, size=None: np.array([cx.choice('sign%d' % i, [0, 1]) for i in range(size)])
        try:
            sig = S.generate_flat_signal(power, num, 4, candidatefreqs=cand, base=0.4, method=None)
        finally:
            np.random.choice, np.random.binomial = old
        cx.check(given == [(cand or [1, 2, 3], False)], 'candidate frequencies')
        cx.check_close(sum(sig), 4 * 0.4, 'mean of the signal', 1e-6)
        z = [(v - 0.4) / math.sqrt(0.24) for v in sig]
        mo = modes_of('dct', z)
        cx.check_close(sum(a**2 for a, b in mo), power, 'power of the signal', 1e-6)
        for k in range(4):
            cx.check(lor(abs(mo[k][0]) < 1e-6, abs(mo[k][0]**2 * num - power) < 1e-5), 'the power is spread equally')
    b = S.dct_basisfunction(2, [1., 1.5, 4.], 0.5, 6)
    for v, t in zip(b, [1., 1.5, 4.]):
        cx.check_close(v, math.cos(2 * PI * (t - 0.5 + 0.5) / 6), 'basis function')


def trajectory(cx, no, hyp, kind, means=None):
    outs = ['a', 'b', 'c'][:no]
    par = {o: [cx.real('%s%d' % (o, i), -1 if i else 0, 1) for i in range(len(hyp))] for o in outs[:-1]}
    for i, o in enumerate(outs[:-1] if means else []):
        par[o][0] = means[i]
    if kind == 'constant':
        return outs, par, T.ConstantProbTrajectory(outs, par)
    return outs, par, T.CosineProbTrajectory(outs, hyp, par, 1.0, 2.0, 4)


def basis(kind, k, t):
    return 1. if kind == 'constant' else math.cos(k * PI * ((t - 1.) / 2. + 0.5) / 4)


@harness(params=[dict(no=n, kind=k) for n in (2, 3) for k in ('constant', 'cosine')],
         encodes=['ProbTrajectory.__init__', 'ProbTrajectory.set_hyperparameters', 'ProbTrajectory.set_parameters', 'ProbTrajectory.set_parameters_from_list', 'ProbTrajectory.get_parameters_as_list', 'ProbTrajectory.get_parameters',
                  'ProbTrajectory.get_probabilities', 'ProbTrajectory.copy', 'CosineProbTrajectory.__init__', 'CosineProbTrajectory.basisfunction', 'ConstantProbTrajectory.__init__', 'ConstantProbTrajectory.basisfunction'], limit=240,
         bounds='2-3 outcomes, 1-3 frequencies (two for three outcomes), 2-3 times, parameters in [-1, 1]', **COMMON)
def trajectories(cx):
    """probabilities are the sums of the basis functions; the last one is what remains"""
    no, kind = cx.p['no'], cx.p['kind']
    hyp = [0] if kind == 'constant' else cx.choice('hyp', [[0], [0, 2], [0, 1, 3]][:5 - no])
    outs, par, tr = trajectory(cx, no, hyp, kind)
    if cx.choice('set', [False, True]):
        new = [cx.real('v%d' % i, -1, 1) for i in range(len(hyp) * (no - 1))]
        old = tr.copy()
        tr.set_parameters_from_list(list(new))
        for o in outs[:-1]:
            for a, b in zip(old.get_parameters()[o], par[o]):
                cx.check(a == b, 'a copy is independent')
        par = {o: new[i * len(hyp):(i + 1) * len(hyp)] for i, o in enumerate(outs[:-1])}
    flat = tr.get_parameters_as_list()
    cx.check(len(flat) == len(hyp) * (no - 1), 'number of parameters')
    for a, b in zip(flat, sum((par[o] for o in outs[:-1]), [])):
        cx.check(a == b, 'parameters as a list')
    times = [1., 2.5, 6.][:5 - no]
    raw = tr.get_probabilities(times, trim=False)
    cut = tr.get_probabilities(times)
    cx.check(set(raw) == set(outs) and set(cut) == set(outs), 'outcomes')
    for j, t in enumerate(times):
        tot = 0
        rest = 1
        for o in outs[:-1]:
            w = sum(a * basis(kind, k, t) for a, k in zip(par[o], hyp))
            cx.check_close(raw[o][j], w, 'probability of an outcome', 1e-6)
            c = ite(w > 1, 1., ite(w < 0, 0., w))
            cx.check_close(cut[o][j], c, 'trimmed probability', 1e-6)
            tot, rest = tot + w, rest - c
        cx.check_close(raw[outs[-1]][j], 1 - tot, 'probability of the last outcome', 1e-6)
        cx.check_close(cut[outs[-1]][j], ite(rest > 1, 1., ite(rest < 0, 0., rest)), 'trimmed probability of the last outcome', 1e-6)


@harness(params=[dict(no=n) for n in (2, 3)], encodes=['probtrajectory._xlogp_rectified', 'probtrajectory.probsdict_negloglikelihood', 'probtrajectory.negloglikelihood'], limit=240,
         bounds='2-3 outcomes at two times, counts 0-3, probabilities in [0.11, 0.79] or one of two below the lower boundary, boundaries 0.1 and 0.8 (the extension above the upper boundary, a 100th power, is not covered)', shadows=False, **COMMON)
def likelihood(cx):
    """the negative log-likelihood of a trajectory, with its stated extension near the boundaries"""
    no = cx.p['no']
    outs = ['a', 'b', 'c'][:no]
    n = {o: [cx.choice('n%s%d' % (o, j), [0, 3]) for j in range(2)] for o in outs}
    lo, hi = 0.1, 0.8
    p = {o: [cx.choice('low%s%d' % (o, j), [None, -0.2, 0.03]) if n[o][j] else 0.3 for j in range(2)] for o in outs}
    p = {o: [cx.real('p%s%d' % (o, j), 0.11, 0.79) if v is None else v for j, v in enumerate(l)] for o, l in p.items()}
    want = 0
    for o in outs:
        for x, q in zip(n[o], p[o]):
            if x == 0: continue
            want = want + (x * math.log(lo) + x / lo * (q - lo) - 0.5 * x / lo**2 * (q - lo)**2 if isinstance(q, float) and q < lo else x * lg(q))
    cx.check_close(T.probsdict_negloglikelihood(p, n, lo, hi), -want, 'negative log-likelihood', 1e-6)
    if no == 2:
        tr = T.ConstantProbTrajectory(outs, {'a': [0.25]})
        k = sum(n['a']), sum(n['b'])
        cx.check_close(T.negloglikelihood(tr, n, [0, 1], 0., 1.), -k[0] * math.log(0.25) - k[1] * math.log(0.75), 'negative log-likelihood of a trajectory')


@harness(params=[dict(no=2, eps=0.)], thorough_params=[dict(no=2, eps=0.05)], encodes=['probtrajectory.amplitude_compression', 'ProbTrajectory.get_probabilities', 'ProbTrajectory.set_parameters_from_list'], limit=300,
         bounds='two outcomes, two frequencies besides the constant, 2 times, mean 0.3 or 0.9', **COMMON)
def compression(cx):
    """the compressed trajectory is a distribution at the given times, with the same means and proportional amplitudes"""
    no, eps = cx.p['no'], cx.p['eps']
    hyp = [0, 1, 2]
    outs, par, tr = trajectory(cx, no, hyp, 'cosine', cx.choice('means', [[0.3], [0.9]]))
    times = [1., 7.]
    new, flag = T.amplitude_compression(tr, times, eps)
    q = new.get_parameters()
    raw = tr.get_probabilities(times, trim=False)
    out = new.get_probabilities(times, trim=False)
    tol = 1e-6
    for o in outs:
        vals = [raw[o][j] for j in range(len(times))]
        flat = land(*[abs(v - vals[0]) < 2e-7 for v in vals[1:]])
        for j in range(len(times)):
            cx.check(lor(land(out[o][j] >= eps - tol, out[o][j] <= 1 - eps + tol), flat), 'probabilities at the given times')
    for o in outs[:-1]:
        cx.check_close(q[o][0], par[o][0], 'the mean stays', 1e-6)
    ps = [par[o][i] for o in outs[:-1] for i in range(1, len(hyp))]
    qs = [q[o][i] for o in outs[:-1] for i in range(1, len(hyp))]
    for a, b in zip(ps, qs):
        cx.check(land(abs(b) <= abs(a) + tol, a * b >= -tol), 'amplitudes are only reduced')
    valid = land(*[land(raw[o][j] >= eps + tol, raw[o][j] <= 1 - eps - tol) for o in outs for j in range(len(times))])
    cx.check(limplies(valid, land(*[a == b for a, b in zip(ps, qs)])), 'a valid trajectory stays')
    if not flag:
        cx.check(land(*[a == b for a, b in zip(ps, qs)]), 'unchanged if not flagged')
