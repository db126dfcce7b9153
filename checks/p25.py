"""P25: multiple-hypothesis testing (objects/hypothesistest, tools/hypothesis)."""
import itertools
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects import hypothesistest as HT
from pygsti.tools import hypothesis as HY

MODS = ['pygsti.objects.hypothesistest', 'pygsti.tools.hypothesis']
META = {'assumptions': ['p-values are symbolic reals in [0, 1]; the significance is symbolic in (0, 1)', 'weights and passing graphs come from the stated lists (the graph algorithm divides by edges)']}
COMMON = dict(modules=MODS, kinds='f', limit=200)
NAMES = ['a', 'b', 'c', 'd']


def count(xs):
    n = 0
    for x in xs:
        n = n + ite(x, 1, 0)
    return n


def rejected(corr, p, s, h):
    """is hypothesis h rejected: set-based definitions, independent of the order of testing"""
    m = len(p)
    if corr == 'none':
        return p[h] <= s
    if corr == 'Bonferroni':
        return p[h] <= s / m
    if corr == 'Holms':  # closed testing: every intersection hypothesis containing h is rejected by a Bonferroni test
        return land(*[lor(*[p[j] <= s / len(S) for j in S]) for k in range(1, m + 1) for S in itertools.combinations(range(m), k) if h in S])
    out = []
    for k in range(m):  # all hypotheses with p-value up to that of k are rejected
        for r in range(1, m + 1):  # r: number of p-values that are <= p_k
            level = s / (m - r + 1) if corr == 'Hochberg' else s * r / m
            out.append(land(p[h] <= p[k], count([x <= p[k] for x in p]) == r, p[k] <= level))
    return lor(*out)


CORR = ['Bonferroni', 'Holms', 'Hochberg', 'Benjamini-Hochberg', 'none']


@harness(params=[dict(n=n, corr=c) for c in CORR for n in (1, 2, 3)], thorough_params=[dict(n=4, corr=c) for c in CORR],
         encodes=['HypothesisTest.__init__', 'HypothesisTest.implement', 'HypothesisTest._implement_nested_hypothesis_test'],
         bounds='one nested group of 1-3 (thorough: 4) hypotheses, all p-values and significances', **COMMON)
def nested(cx):
    n, corr = cx.p['n'], cx.p['corr']
    s = cx.real('s', 0.001, 0.999)
    p = cx.reals('p', n, 0, 1)
    grp = tuple(NAMES[:n])
    t = HT.HypothesisTest([grp], significance=s, local_corrections=corr)
    pv = dict(zip(grp, p))
    t.add_pvalues(pv)
    t.implement()
    cx.check(sorted(t.hypothesis_rejected) == sorted(grp), "verdict for every hypothesis")
    for i, h in enumerate(grp):
        w = rejected(corr, p, s, i)
        got = t.hypothesis_rejected[h]
        cx.check(w if got else lnot(w), "%s rejects exactly its hypotheses" % corr)
        cx.check((p[i] <= t.significance_tested_at[h]) if got else (p[i] > t.significance_tested_at[h]), "significance tested at separates")
        th = t.pvalue_pseudothreshold[grp]
        cx.check((p[i] <= th) if got else (p[i] > th), "pseudo-threshold separates")


# passing graphs (rows sum to <= 1), None: Holm
GRAPHS = {2: [None, [[0, 1], [1, 0]], [[0, 0.5], [0.25, 0]]],
          3: [None, [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [1, 0, 0], [0.5, 0.5, 0]], [[0, 0.75, 0.25], [0.5, 0, 0.5], [0, 0, 0]], [[0, 0.5, 0], [0.25, 0, 0.75], [0, 1, 0]]],
          4: [None, [[0, 0.5, 0.5, 0], [0.5, 0, 0, 0.5], [0, 1, 0, 0], [1, 0, 0, 0]]]}
WEIGHTS = {2: ['equal', {'a': 1, 'b': 3}], 3: ['equal', {'a': 1, 'b': 2, 'c': 1}, {'a': 0, 'b': 1, 'c': 1}], 4: ['equal', {'a': 1, 'b': 0, 'c': 2, 'd': 1}]}


def graphical(p, w, G, nested_idx, s):
    """Bretz et al. graphical procedure, always rejecting the last rejectable hypothesis; returns (rejected set, final levels)"""
    n = len(p)
    a = [s * x for x in w]
    G = [list(map(float, r)) for r in G]
    alive = list(range(n))
    while True:
        for h in reversed(alive):
            if h in nested_idx:
                continue
            if p[h] <= a[h]:
                break
        else:
            return [i for i in range(n) if i not in alive], a
        alive.remove(h)
        for l in alive:
            a[l] = a[l] + a[h] * G[h][l]
        G2 = [[0.0] * n for _ in range(n)]
        for l in alive:
            for k in alive:
                if l != k and abs(G[l][h] * G[h][l] - 1) > 1e-12:
                    G2[l][k] = (G[l][k] + G[l][h] * G[h][k]) / (1 - G[l][h] * G[h][l])
        G = G2


@harness(params=[dict(n=n, g=g, w=w, nest=False) for n in (2, 3) for g in range(len(GRAPHS[n])) for w in range(len(WEIGHTS[n]))] +
                [dict(n=2, g=0, w=1, nest=True), dict(n=3, g=0, w=1, nest=True), dict(n=3, g=3, w=0, nest=True)] + [dict(n=4, g=g, w=g, nest=False) for g in (0, 1)],
         encodes=['HypothesisTest.implement', 'HypothesisTest._initialize_to_weighted_holms_test', 'HypothesisTest.__init__'],
         bounds='2-4 hypotheses, Holm or given passing graphs and weights, optionally the last hypothesis a nested pair', **COMMON)
def graph(cx):
    n, nest = cx.p['n'], cx.p['nest']
    s = cx.real('s', 0.001, 0.999)
    G, W = GRAPHS[n][cx.p['g']], WEIGHTS[n][cx.p['w']]
    hyps = NAMES[:n]
    p = cx.reals('p', n, 0, 1)
    pv = dict(zip(hyps, p))
    ni = []
    if nest:
        hyps[-1] = ('x', 'y')
        ni = [n - 1]
        q = cx.reals('q', 2, 0, 1)
        pv.update(x=q[0], y=q[1])
        if W != 'equal':
            W = {h: W[NAMES[i]] for i, h in enumerate(hyps)}
    kw = {} if G is None else dict(passing_graph=np.array(G, float))
    t = HT.HypothesisTest(hyps, significance=s, weighting=W, local_corrections='Bonferroni', **kw)
    for round in range(2):  # implementing twice gives the same verdict
        t.add_pvalues(pv)
        t.implement()
    w = [1.0 / n] * n if W == 'equal' else [W[h] / sum(W.values()) for h in hyps]
    if G is None:
        G = [[0 if i == j else 1.0 / (n - 1) for j in range(n)] for i in range(n)]
    rej, a = graphical(p, w, G, ni, s)
    for i, h in enumerate(hyps):
        if i in ni:
            for j, x in enumerate('xy'):
                e = q[j] - a[i] / 2
                cx.assume(lor(e > 1e-6, e < -1e-6))
                cx.check((e <= 0) if t.hypothesis_rejected[x] else (e > 0), "nested group is tested at the significance passed to it")
        else:
            e = p[i] - a[i]
            cx.assume(lor(e > 1e-6, e < -1e-6))  # (rounding)
            cx.check(t.hypothesis_rejected[h] == (i in rej), "graph procedure rejects exactly its hypotheses")
            if i not in rej:
                cx.check_close(t.significance_tested_at[h], a[i], "local significance of a hypothesis that is not rejected")
                cx.check_close(t.pvalue_pseudothreshold[h], a[i], "pseudo-threshold")
            else:
                cx.check(p[i] <= t.significance_tested_at[h] + 1e-9, "rejected at the tested significance")
    if n <= 4 and not nest and cx.p['g'] == 0 and W == 'equal':
        for i, h in enumerate(hyps):
            ws = rejected('Holms', p, s, i)
            m = [lor(x - s / k > 1e-6, x - s / k < -1e-6) for x in p for k in range(1, n + 1)]
            cx.check(limplies(land(*m), ws if t.hypothesis_rejected[h] else lnot(ws)), "equal weights and Holm graph: Holm's procedure")


@harness(encodes=['bonferroni_correction', 'sidak_correction', 'generalized_bonferroni_correction'], bounds='symbolic significance and weights, 1-6 tests', **COMMON)
def corrections(cx):
    s = cx.real('s', 0.001, 0.999)
    k = cx.choice('k', [1, 2, 6])
    cx.check_close(HY.bonferroni_correction(s, k) * k, s, "Bonferroni")
    k2 = cx.choice('k2', [1, 2])
    cx.check_close((1 - HY.sidak_correction(s, k2)) ** k2, 1 - s, "Sidak")
    w = cx.real('w', 0, 1)
    g = HY.generalized_bonferroni_correction(s, [w, 1 - w])
    cx.check_close(g[0], s * w, "weighted")
    cx.check_close(g[0] + g[1], s, "weighted total")
    g = HY.generalized_bonferroni_correction(s, [w, 1 - w], numtests=[k, 2])
    cx.check_close(g[0] * k + g[1] * 2, s, "weighted with nested tests: total")
    cx.check_close(g[1] * 2, s * (1 - w), "weighted with nested tests")
    g = HY.generalized_bonferroni_correction(s, [0.25, 0.75], numtests=[2, 1], nested_method='sidak')
    cx.check_close((1 - g[0]) ** 2, 1 - s / 4, "nested Sidak")
    cx.check_close(g[1], s * 0.75, "nested Sidak, one test")
    cx.check_raises(lambda: HY.generalized_bonferroni_correction(s, [0.5, 0.75]), "weights must sum to one", AssertionError)
