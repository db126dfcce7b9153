"""P36: comparison of data sets (objects/datacomparator)."""
import itertools
import math
import types
import numpy as np
import scipy.stats
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects import datacomparator as DC
from pygsti.objects.circuit import Circuit
from pygsti.objects.dataset import DataSet
from pygsti.objects.multidataset import MultiDataSet
from checks.p25 import rejected

MODS = ['pygsti.objects.datacomparator', 'pygsti.objects.dataset', 'pygsti.objects.multidataset', 'pygsti.objects.hypothesistest']
META = {'assumptions': ['counts are whole numbers up to 1000, symbolic or zero; log is an uninterpreted function of its argument in the solver; the chi-squared distribution function and its inverse '
                        'are replaced by uninterpreted functions (each distinct argument gives an arbitrary value in [0, 1], or any threshold) whose arguments are checked']}
COMMON = dict(modules=MODS, kinds='f')
OUTS = ['0', '1', '2']


def lg(x):
    return x.log() if hasattr(x, 'log') else math.log(x)


def nlogn(x):
    return 0 if x == 0 else x * lg(x)


def llr(ns):
    """2 (sum of context log-likelihoods - pooled log-likelihood) at the observed frequencies"""
    cols = [sum(c) for c in zip(*ns)]
    own = sum(sum(nlogn(x) for x in r) - nlogn(sum(r)) for r in ns)
    pooled = sum(nlogn(x) for x in cols) - nlogn(sum(cols))
    return 2 * (own - pooled)


def dist(a, b):
    A, B = sum(a), sum(b)
    return sum(abs(x / A - y / B) for x, y in zip(a, b)) / 2


def counts(cx, nm, n, zero=None):
    """n counts; those in `zero` are zero, the others positive"""
    return [0 if zero and k in zero else cx.int('%s%d' % (nm, k), 1, 1000) / 1 for k in range(n)]


def zeros(nc, no):
    """which counts are zero: per context a set of outcomes, not all of them"""
    sub = [set(s) for k in range(no) for s in itertools.combinations(range(no), k)]
    return [z for z in itertools.product(sub, repeat=nc)]


@harness(params=[dict(nc=nc, no=no) for nc, no in ((2, 2), (2, 3), (3, 2))], thorough_params=[dict(nc=3, no=3), dict(nc=4, no=2)], limit=120,
         encodes=['datacomparator.xlogy', 'datacomparator.loglikelihood', 'datacomparator.loglikelihoodRatio', 'datacomparator.JensenShannonDivergence', 'datacomparator.tvd'],
         bounds='2-3 contexts of 2-3 outcomes (thorough: 3 and 3, 4 and 2), every subset of zero counts, every other count in 1..1000', **COMMON)
def statistics(cx):
    """log-likelihood ratio, Jensen-Shannon divergence and total variation distance of counts"""
    nc, no = cx.p['nc'], cx.p['no']
    z = cx.choice('zero', zeros(nc, no))
    ns = [counts(cx, 'n%d_' % i, no, z[i]) for i in range(nc)]
    given = cx.array([x for r in ns for x in r], (nc, no), 'f')
    want = llr(ns)
    cx.check_close(DC.loglikelihoodRatio(given), want, 'log-likelihood ratio', 1e-6)
    cx.check_close(DC.JensenShannonDivergence(given), want / (2 * sum(map(sum, ns))), 'Jensen-Shannon divergence', 1e-6)
    if nc == 2:
        d = DC.tvd(given)
        cx.check_close(d, dist(*ns), 'total variation distance', 1e-6)
        cx.check(land(d >= 0, d <= 1 + 1e-9), 'total variation distance is in [0, 1]')


@harness(encodes=['datacomparator.llr_to_signed_nsigma', 'datacomparator.likelihood', 'datacomparator.loglikelihood', 'datacomparator.xlogy'], limit=60,
         bounds='two outcomes with probabilities in [0.01, 1] and counts 0-3; every ratio in [0, 100]', **COMMON)
def helpers(cx):
    """likelihood of counts, and number of standard deviations"""
    k, n = cx.choice('dof', [1, 2, 8]), cx.choice('powers', [[0, 2], [3, 1]])
    x = cx.real('x', 0, 100)
    cx.check_close(DC.llr_to_signed_nsigma(x, k) * math.sqrt(2 * k), x - k, 'number of standard deviations')
    p = [cx.real('p%d' % i, 0, 1) for i in range(2)]
    cx.assume(land(p[0] > 0.01, p[1] > 0.01))
    cx.check_close(DC.likelihood(p, n), p[0]**n[0] * p[1]**n[1], 'likelihood')
    cx.check_close(DC.loglikelihood(p, n), n[0] * lg(p[0]) + n[1] * lg(p[1]), 'log-likelihood', 1e-6)


class Chi2(object):
    """uninterpreted chi-squared distribution; every call is recorded"""

    def __init__(self, cx):
        self.cx, self.calls = cx, []

    def _f(self, kind, x, dof):
        for k, y, d, v in self.calls:
            if k == kind and d == dof and (y is x or key(y) == key(x)):
                return v
        n = len(self.calls)
        v = self.cx.real('F%d' % n, 0, 1) if kind == 'cdf' else self.cx.real('I%d' % n, 0, 50)
        self.calls.append((kind, x, dof, v))
        return v

    def cdf(self, x, dof): return self._f('cdf', x, dof)
    def sf(self, x, dof): return 1 - self.cdf(x, dof)
    def isf(self, q, dof): return self._f('isf', q, dof)
    def ppf(self, q, dof): return self.isf(1 - q, dof)

    def used(self, kind, value, x, dof, what):
        """value is the function of x and dof"""
        hits = [y for k, y, d, v in self.calls if k == kind and d == dof and same(v, value)]
        self.cx.check(len(hits) > 0, what + ': not the distribution function with the degrees of freedom')
        if len(hits) > 1:  # equal values by coincidence, in a concrete run
            hits = sorted(hits, key=lambda y: abs(y - x))
        self.cx.check_close(hits[0], x, what + ': argument of the distribution function', 1e-6)


def key(x):
    return tuple(sorted((m, round(c, 9)) for m, c in x.d.items())) if hasattr(x, 'd') else ('c', float(x))


def same(a, b):
    r = a - b
    if hasattr(r, 'd'):
        return all(abs(c) < 1e-9 for c in r.d.values())
    return abs(r) < 1e-9


class patched(object):
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.old = scipy.stats.chi2
        scipy.stats.chi2 = self.c
        return self.c

    def __exit__(self, *a):
        scipy.stats.chi2 = self.old


CIRCS = [Circuit('Gx'), Circuit('GyGi'), Circuit('{}'), Circuit('Gx^2Gi')]


def datasets(cx, circs, ns, form, outs):
    dss = []
    for i in range(len(ns[0])):
        ds = DataSet(outcomeLabels=outs)
        for c, rows in zip(circs, ns):
            ds.add_count_dict(c, dict(zip(outs, rows[i])))
        ds.done_adding_data()
        dss.append(ds)
    if form == 'list':
        return dss
    m = MultiDataSet(outcomeLabels=[(o,) for o in outs])
    for i, ds in enumerate(dss):
        m.add_dataset('D%d' % i, ds)
    return m


def positive(cx, i, j, no, small=False):
    return [cx.int('n%d%d%d' % (i, j, k), 1, 1000) / 1 if not small or k == 0 else 5. for k in range(no)]


@harness(params=[dict(nds=d, no=o, nc=c, form=f) for d, o, c in ((2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 1)) for f in ('list', 'multi')], limit=200,
         encodes=['DataComparator.__init__', 'DataComparator.get_TVD', 'DataComparator.get_pvalue', 'DataComparator.get_LLR', 'DataComparator.get_JSD', 'DataComparator.get_aggregate_LLR', 'DataComparator.get_aggregate_pvalue', 'DataComparator.get_aggregate_nsigma'],
         bounds='2-3 data sets (a list or a MultiDataSet), 1-2 circuits, 2-3 outcomes, every count in 1..1000', **COMMON)
def values(cx):
    """every circuit's statistics, and the aggregate ones"""
    nds, no, nc, form = (cx.p[k] for k in ('nds', 'no', 'nc', 'form'))
    outs, circs = OUTS[:no], CIRCS[:nc]
    ns = [[positive(cx, c, i, no) for i in range(nds)] for c in range(nc)]
    if nc == 1 and cx.choice('nought', [False, True]):
        ns[0][1][-1] = 0
    names = cx.choice('names', [None, ['x', 'y', 'z'][:nds]])
    data = datasets(cx, circs, ns, form, outs)
    with patched(Chi2(cx)) as chi:
        d = DC.DataComparator(data, DS_names=names)
        cx.check(list(d.DS_names) == (names or (list(range(nds)) if form == 'list' else ['D%d' % i for i in range(nds)])), 'names of the data sets')
        dof = (nds - 1) * (no - 1)
        tot = 0
        for c, n in zip(circs, ns):
            w = llr(n)
            tot = tot + w
            cx.check_close(d.get_LLR(c), w, 'log-likelihood ratio of a circuit', 1e-6)
            cx.check_close(d.get_JSD(c), w / (2 * sum(map(sum, n))), 'Jensen-Shannon divergence of a circuit', 1e-6)
            chi.used('cdf', 1 - d.get_pvalue(c), w, dof, 'p-value of a circuit')
            if nds == 2:
                cx.check_close(d.get_TVD(c), dist(*n), 'total variation distance of a circuit', 1e-6)
        if nds != 2:
            cx.check_raises(lambda: d.get_TVD(circs[0]), 'the TVD needs two data sets', ValueError)
        cx.check(set(d.llrs) == set(circs) and set(d.pVals) == set(circs) and set(d.jsds) == set(circs), 'compares exactly the circuits of the data')
        cx.check_close(d.get_aggregate_LLR(), tot, 'aggregate log-likelihood ratio is the sum', 1e-6)
        chi.used('cdf', 1 - d.get_aggregate_pvalue(), tot, nc * dof, 'aggregate p-value')
        cx.check_close(d.get_aggregate_nsigma() * math.sqrt(2 * nc * dof), tot - nc * dof, 'aggregate number of standard deviations', 1e-6)


CORR = ['Hochberg', 'Holms', 'Bonferroni', 'none', 'Benjamini-Hochberg']


@harness(params=[dict(corr=c, pass_alpha=a) for c in CORR for a in (True, False)], limit=300,
         encodes=['DataComparator.implement', 'DataComparator.get_SSTVD', 'DataComparator.get_SSJSD', 'DataComparator.get_maximum_SSTVD', 'DataComparator.get_pvalue_pseudothreshold', 'DataComparator.get_LLR_pseudothreshold',
                  'DataComparator.get_JSD_pseudothreshold', 'DataComparator.get_aggregate_LLR_threshold', 'DataComparator.get_aggregate_pvalue_threshold', 'DataComparator.get_aggregate_nsigma_threshold'],
         bounds='2 data sets, 1-3 circuits of given counts, every p-value and significance, aggregate weight 0, 1/4, 1/2 or 1; equal or different totals', **COMMON)
def decisions(cx):
    """the circuits flagged are those that the multiple-hypothesis procedure rejects, and the reported thresholds separate"""
    corr, pa = cx.p['corr'], cx.p['pass_alpha']
    nc = cx.choice('nc', [1, 2, 3])
    w = cx.choice('weight', [0.5, 0.25, 0, 1])
    fixed = cx.choice('equal_totals', [True, False])
    circs = CIRCS[:nc]
    ns = [[[10 + 10 * c, 90 - 10 * c], [30, 70]] for c in range(nc)]
    if not fixed:
        ns[-1][0][0] += 7
        ns[0][1][0] += 2
    data = datasets(cx, circs, ns, 'list', OUTS[:2])
    with patched(Chi2(cx)) as chi:
        d = DC.DataComparator(data)
        s = cx.real('s', 0, 1)
        cx.assume(land(s > 0.001, s < 0.999))
        for x in chi.calls:
            cx.assume(x[3] < 1)
        p = [d.get_pvalue(c) for c in circs]
        agg = d.get_aggregate_pvalue()
        d.implement(significance=s, per_sequence_correction=corr, aggregate_test_weighting=w, pass_alpha=pa, verbosity=0)
        aggrej = bool(agg <= s * w)
        level = s if aggrej and pa else s * (1 - w)
        rej = [bool(rejected(corr, p, level, i)) for i in range(nc)]
        cx.check(bool(d.results.hypothesis_rejected['aggregate']) == aggrej, 'verdict of the aggregate test')
        for i, c in enumerate(circs):
            cx.check(bool(d.results.hypothesis_rejected[c]) == rej[i], 'verdict of a circuit')
            cx.check((p[i] <= d.get_pvalue_pseudothreshold()) if rej[i] else (p[i] > d.get_pvalue_pseudothreshold()), 'the pseudo-threshold separates the flagged circuits')
            if rej[i]:
                cx.check_close(d.get_SSTVD(c), dist(*ns[i]), 'significant TVD of a flagged circuit', 1e-6)
                cx.check_close(d.get_SSJSD(c), llr(ns[i]) / (2 * sum(map(sum, ns[i]))), 'significant JSD of a flagged circuit', 1e-6)
            else:
                cx.check(d.get_SSTVD(c) is None and d.get_SSJSD(c) is None, 'no significant TVD and JSD of other circuits')
        cx.check(d.number_of_significant_sequences == sum(rej), 'number of flagged circuits')
        cx.check(bool(d.inconsistent_datasets_detected) == (aggrej or any(rej)), 'inconsistency is reported exactly if some test rejects')
        mx = d.get_maximum_SSTVD()
        if any(rej):
            best = max(dist(*ns[i]) for i in range(nc) if rej[i])
            cx.check_close(mx[1], best, 'maximum significant TVD', 1e-9)
            cx.check(any(circs[i] == mx[0] and rej[i] and abs(dist(*ns[i]) - best) < 1e-9 for i in range(nc)), 'circuit of the maximum significant TVD')
        else:
            cx.check(tuple(mx) == (None, None), 'no maximum without flagged circuits')
        cx.check_close(d.get_aggregate_pvalue_threshold(), s * w, 'aggregate p-value threshold')
        if w == 0:
            cx.check(d.get_aggregate_LLR_threshold() == math.inf and d.get_aggregate_nsigma_threshold() == math.inf, 'no aggregate threshold without aggregate test')
        else:
            chi.used('isf', d.get_aggregate_LLR_threshold(), s * w, nc, 'aggregate LLR threshold')
            cx.check_close(d.get_aggregate_nsigma_threshold() * math.sqrt(2 * nc), d.get_aggregate_LLR_threshold() - nc, 'aggregate standard-deviation threshold', 1e-6)
        chi.used('isf', d.get_LLR_pseudothreshold(), d.get_pvalue_pseudothreshold(), 1, 'LLR pseudo-threshold')
        if fixed or nc == 1 and len(set(sum(map(sum, n)) for n in ns)) == 1:
            cx.check_close(d.get_JSD_pseudothreshold() * 2 * sum(map(sum, ns[0])), d.get_LLR_pseudothreshold(), 'JSD pseudo-threshold is the LLR pseudo-threshold over 2N', 1e-6)
        else:
            cx.check_raises(d.get_JSD_pseudothreshold, 'no JSD pseudo-threshold for different totals', AssertionError)
        again = DC.DataComparator(data)
        cx.check_raises(again.get_pvalue_pseudothreshold, 'thresholds need the test', AssertionError)


POOL = [Circuit('{}'), Circuit('Gx'), Circuit('GyGxpi'), Circuit('[Gp:Q0Gq:Q1]Gr:Q0')]
GATES = ['Gx', 'Gy', 'Gxpi', ('Gp', 'Q0'), 'Gz', ('Gp', 'Q1')]


@harness(params=[dict(form=f) for f in ('list', 'multi')], limit=200,
         encodes=['DataComparator.__init__', 'datacomparator.is_circuit_allowed_by_exclusion', 'datacomparator.is_circuit_allowed_by_inclusion'],
         bounds='every list of circuits out of 4, every pair of excluded and included gates out of 6 (or none; one name is the beginning of another), every set of circuits that were not run in one data set', **COMMON)
def selection(cx):
    """exactly the allowed circuits are compared"""
    form = cx.p['form']
    bad = [cx.choice('bad%d' % i, [None, 0, 1][:2 + (i == 1)]) for i in range(len(POOL))]
    ns = [[[0, 0] if bad[i] == k else [3, 4 + i] for k in range(2)] for i in range(len(POOL))]
    ex = cx.choice('exclude', [None, [0], [2], [1, 2], [3], [4], [5]])
    inc = cx.choice('include', [None, [0], [2], [1, 4], [3, 1], [5, 0], []])
    circs = cx.choice('circuits', ['all', [0, 2], [3, 1, 0]])
    data = datasets(cx, POOL, ns, form, OUTS[:2])
    lab = lambda ix: None if ix is None else [DC_label(GATES[i]) for i in ix]
    with patched(Chi2(cx)):
        d = DC.DataComparator(data, circuits=circs if circs == 'all' else [POOL[i] for i in circs], op_exclusions=lab(ex), op_inclusions=lab(inc), allow_bad_circuits=True) \
            if expected(circs, bad, ex, inc) else None
        if d is None:
            return
        cx.check(set(d.llrs) == set(POOL[i] for i in expected(circs, bad, ex, inc)), 'compares exactly the circuits allowed')
        cx.check(d.num_strs == len(expected(circs, bad, ex, inc)), 'number of circuits')


def DC_label(g):
    from pygsti.objects.label import Label
    return Label(g) if isinstance(g, str) else Label(*g)


def gates(i):
    return [] if i == 0 else [DC_label('Gx')] if i == 1 else [DC_label('Gy'), DC_label('Gxpi')] if i == 2 else [DC_label(('Gp', 'Q0')), DC_label(('Gq', 'Q1')), DC_label(('Gr', 'Q0'))]


def expected(circs, bad, ex, inc):
    out = []
    for i in (range(len(POOL)) if circs == 'all' else circs):
        g = gates(i)
        if bad[i] is not None: continue
        if ex is not None and any(DC_label(GATES[k]) in g for k in ex): continue
        if inc is not None and i != 0 and not any(DC_label(GATES[k]) in g for k in inc): continue
        out.append(i)
    return out
