"""P24: wildcard budgets move probabilities towards the frequencies, within the budget."""
import itertools
import numpy as np
from symex.harness import harness, land, lor, lnot, ite, RANGE
from pygsti.objects import wildcardbudget as WB
from pygsti.objects import Circuit, Label

MODS = ['pygsti.objects.wildcardbudget', ('pygsti.tools.matrixtools', RANGE)]
COMMON = dict(modules=MODS, kinds='fb', limit=300)
META = {'assumptions': ['the frequencies of a circuit are concrete (listed) where probabilities and budgets are symbolic, so that the comparisons are linear',
                        'a prediction within 1e-9 of its frequency is excluded where the frequency is not zero or a power of 1/2 (the quotient is rounded there); tolerances as in the code (1e-6 on the total variation, 1e-8 for unobserved outcomes)']}
TOL = 1e-5


class Fixed(WB.WildcardBudget):
    """a budget with given values for the circuits"""

    def __init__(self, ws):
        self.ws = ws
        super().__init__(np.zeros(1))

    def circuit_budget(self, circuit): return self.ws[circuit]
    def circuit_budgets(self, circuits, precomp=None): return [self.ws[c] for c in circuits]


def ab(x): return ite(x >= 0, x, -x)
def tvd(a, b): return sum(ab(x - y) for x, y in zip(a, b)) * .5


def dist(cx, nm, n, lo=0.):
    """a symbolic distribution over n outcomes"""
    q = [cx.real('%s%d' % (nm, i), lo, 1.) for i in range(n - 1)]
    last = 1. - sum(q)
    cx.assume(last >= lo)
    return q + [last]


def run(cx, meth, q, f, w, wb=None):
    n = len(q)
    qa, fa = cx.array(list(q), (n,), 'f'), cx.array(list(f), (n,), 'f')
    out = cx.array([7.] * n, (n,), 'f')
    b = Fixed([w]) if wb is None else wb
    getattr(b, meth)(qa, out, fa, [0], [slice(0, n)])
    for x, y in zip(q, f):
        if type(y) in (int, float) and y not in (0., .0625, .125, .25, .5, 1.):
            cx.assume(ab(x - y) >= 1e-9)
    cx.check(land(*[x == y for x, y in zip(qa, q)]), 'the given probabilities were changed')
    cx.check(land(*[x == y for x, y in zip(fa, f)]), 'the given frequencies were changed')
    return list(out)


def good(cx, q, f, w, p, neg=False):
    """p: q moved towards f by at most w"""
    n = len(q)
    cx.check(ab(sum(p) - 1.) <= TOL, 'the adjusted probabilities do not sum to one')
    for i in range(n):
        cx.check(land(lor(p[i] >= q[i] - TOL, p[i] >= f[i] - TOL), lor(p[i] <= q[i] + TOL, p[i] <= f[i] + TOL)), 'outcome %d is not between prediction and frequency' % i)
    t, t0 = tvd(p, q), tvd(q, f)
    cx.check(t <= w + TOL, 'the budget is exceeded')
    cx.check(lor(t >= w - TOL, land(*[ab(p[i] - f[i]) <= TOL for i in range(n)])), 'the budget is not used although the frequencies are not reached')


FREQ2 = [(.5, .5), (.125, .875), (0., 1.)]
FREQ3 = [(.0625, .0625, .875), (.25, .25, .5), (0., .25, .75), (.125, .625, .25)]
FREQ4 = [(.0625, .0625, .75, .125), (0., 0., .5, .5)]


@harness(params=[dict(f=f, m=m) for f in FREQ2 + FREQ3 for m in ('update_probs', 'slow_update_probs')], thorough_params=[dict(f=f, m=m) for f in FREQ4 for m in ('update_probs',)],
         encodes=['WildcardBudget.update_probs', 'WildcardBudget.slow_update_probs'], bounds='2 and 3 outcomes (thorough 4) with the listed frequencies (including unobserved outcomes), every probability distribution with probabilities of at least 0.001 and every budget in [0,1]', **COMMON)
def within_budget(cx):
    """the adjusted probabilities form a distribution between prediction and data, at the budgeted distance (or at the data), and are the best such"""
    f = cx.p['f']
    n = len(f)
    q = dist(cx, 'q', n, .001)
    w = cx.real('w', 0., 1.)
    p = run(cx, cx.p['m'], q, f, w)
    good(cx, q, f, w, p)
    # optimality: elements that are moved share one ratio to their frequency on each side; an element with a smaller change is at its prediction
    for i, j in itertools.permutations(range(n), 2):
        if f[i] and f[j]:
            up = land(q[i] > f[i] + TOL, q[j] > f[j] + TOL, p[i] * f[j] < p[j] * f[i] - TOL)
            cx.check(lor(lnot(up), ab(p[i] - q[i]) <= 2 * TOL), 'over-predicted outcomes are not lowered in proportion to their frequencies')
            dn = land(q[i] < f[i] - TOL, q[j] < f[j] - TOL, p[i] * f[j] > p[j] * f[i] + TOL)
            cx.check(lor(lnot(dn), ab(p[i] - q[i]) <= 2 * TOL), 'under-predicted outcomes are not raised in proportion to their frequencies')


@harness(params=[dict(q=q) for q in ((.5, .5), (.125, .875), (.0625, .140625, .796875), (.25, .5, .25))], encodes=['WildcardBudget.update_probs'],
         bounds='2 and 3 outcomes with the listed predictions, every distribution of frequencies of at least 0.02, listed budgets', **COMMON)
def all_frequencies(cx):
    q = cx.p['q']
    f = dist(cx, 'f', len(q), .02)
    w = cx.choice('w', [0., .03125, .125, .25])
    good(cx, q, f, w, run(cx, 'update_probs', q, f, w))


@harness(params=[dict(f=f) for f in FREQ2 + FREQ3[:3]], encodes=['WildcardBudget.update_probs'], bounds='2 and 3 outcomes with the listed frequencies, every probability distribution and pair of budgets', **COMMON)
def monotone(cx):
    """a larger budget never moves an outcome away from its frequency"""
    f = cx.p['f']
    n = len(f)
    q = dist(cx, 'q', n, .001)
    w1 = cx.real('w', 0., 1.) if n == 2 else cx.choice('w1', [0., .0625, .125])
    w2 = w1 + cx.real('d', 0., 1.)
    p1, p2 = run(cx, 'update_probs', q, f, w1), run(cx, 'update_probs', q, f, w2)
    for i in range(n):
        cx.check(ab(p2[i] - f[i]) <= ab(p1[i] - f[i]) + TOL, 'a larger budget moves outcome %d away from its frequency' % i)


@harness(params=[dict(f=f, k=k) for f in FREQ3[:3] for k in (1, 2)], encodes=['WildcardBudget.update_probs'], bounds='3 outcomes with the listed frequencies, one (listed values) or two (every value in [-0.2,-0.01]) negative predictions, listed budgets', **COMMON)
def negative(cx):
    """negative predictions: the sum of the probabilities is kept and the budget is respected"""
    f, k = cx.p['f'], cx.p['k']
    q = ([cx.choice('q0', [-.1875, -.0625, -.015625])] if k == 1 else [cx.real('q%d' % i, -.2, -.01) for i in range(k)]) + [cx.real('q%d' % i, .01, 1.2) for i in range(k, 2)]
    q.append(1. - sum(q))
    cx.assume(q[2] >= .01)
    w = cx.choice('w', [0., .0625, .125, .5])
    if k == 1:      # (rounded scale factors: the rescaled predictions are kept away from the frequencies)
        scale = 1. - min(-q[0], w) / (1. - q[0])
        for i in (1, 2):
            cx.assume(ab(q[i] * scale - f[i]) >= 1e-9)
    p = run(cx, 'update_probs', q, f, w)
    cx.check(ab(sum(p) - 1.) <= TOL, 'the adjusted probabilities do not sum to one')
    cx.check(tvd(p, q) <= w + TOL, 'the budget is exceeded')
    neg = -sum(q[:k])
    cx.check(sum(ite(x < 0, -x, 0.) for x in p) <= ite(neg > w, neg - w, 0.) + TOL, 'the budget is not spent on the negative probabilities')
    cx.check(lor(neg > w - 1e-6, land(*[x >= -1e-9 for x in p])), 'a negative probability remains although the budget suffices')


@harness(params=[dict(ix=i, spam=s) for i in ('slice', 'array') for s in (0, 1)], encodes=['WildcardBudget.update_probs', 'PrimitiveOpsWildcardBudget.circuit_budgets', 'WildcardBudget.get_precomp_for_circuits'],
         bounds='two circuits with two outcomes each, interleaved or contiguous; every prediction and parameter vector; listed frequencies', **COMMON)
def circuits(cx):
    """every circuit is adjusted by its own budget at its own elements; adjusting in place gives the same"""
    C = [Circuit([('Gx', 0)]), Circuit([('Gx', 0), ('Gy', 0)])]
    b = WB.PrimitiveOpsWildcardBudget([Label('Gx', 0), Label('Gy', 0)], add_spam=bool(cx.p['spam']))
    v = cx.reals('v', 2 + cx.p['spam'], -.25, .25)
    b.from_vector(cx.array(list(v), (len(v),), 'f'))
    ix = [slice(0, 2), slice(2, 4)] if cx.p['ix'] == 'slice' else [np.array([3, 0]), np.array([1, 2])]
    el = [[0, 1], [2, 3]] if cx.p['ix'] == 'slice' else [[3, 0], [1, 2]]
    f, q = [0.] * 4, [0.] * 4
    for (i, j), x, nm in zip(el, (.5, .125), 'ab'):
        y = cx.real('q' + nm, .01, .99)
        f[i], f[j], q[i], q[j] = x, 1 - x, y, 1 - y
    out = cx.array([7.] * 4, (4,), 'f')
    qa, fa = cx.array(list(q), (4,), 'f'), cx.array(list(f), (4,), 'f')
    pre = b.get_precomp_for_circuits(C)
    b.update_probs(qa, out, fa, C, ix, pre)
    spam = ab(v[2]) if cx.p['spam'] else 0.
    ws = [ab(v[0]) + spam, ab(v[0]) + ab(v[1]) + spam]
    for (i, j), w in zip(el, ws):
        # two outcomes: the first moves towards its frequency by the budget
        d = f[i] - q[i]
        want = ite(ab(d) <= w, f[i], ite(d > 0, q[i] + w, q[i] - w))
        cx.check_close([out[i], out[j]], [want, 1 - want], 'adjusted probabilities', tol=TOL)
    b.update_probs(qa, qa, fa, C, ix)
    cx.check_close(list(qa), list(out), 'in place and without precomputation', tol=1e-9)


@harness(params=[dict(spam=s, k=k) for s in (0, 1) for k in range(4)], encodes=['PrimitiveOpsWildcardBudget.__init__', 'PrimitiveOpsWildcardBudget.circuit_budget', 'PrimitiveOpsWildcardBudget.circuit_budgets',
         'WildcardBudget.get_precomp_for_circuits', 'PrimitiveOpsWildcardBudget.get_op_budget', 'PrimitiveOpsWildcardBudget.get_descriptive_dict', 'WildcardBudget.to_vector', 'WildcardBudget.from_vector'],
         bounds='the listed circuits over three operations (parallel and repeated components), every parameter vector', **COMMON)
def budgets(cx):
    """the budget of a circuit is the sum over the components of its layers of the sizes of their parameters, plus the SPAM parameter"""
    ops = [Label('Gx', 0), Label('Gx', 1), Label('Gc', (0, 1))]
    C = [Circuit([], line_labels=(0, 1)), Circuit([('Gx', 0), [('Gx', 0), ('Gx', 1)]]), Circuit([('Gc', 0, 1), ('Gx', 1), ('Gc', 0, 1)]), Circuit([[], ('Gx', 1)], line_labels=(0, 1))]
    counts = [(0, 0, 0), (2, 1, 0), (0, 1, 2), (0, 1, 0)]
    s = cx.p['spam']
    b = WB.PrimitiveOpsWildcardBudget(ops, add_spam=bool(s), start_budget=.25)
    cx.check(len(b.to_vector()) == 3 + s and all(float(x) == .25 for x in b.to_vector()), 'starting budget')
    v = cx.reals('v', 3 + s, -1, 1)
    b.from_vector(cx.array(list(v), (3 + s,), 'f'))
    cx.check_close(list(b.to_vector()), v, 'vector')
    want = [sum(c * ab(x) for c, x in zip(cs, v)) + (ab(v[3]) if s else 0.) for cs in counts]
    k = cx.p['k']
    sel = [k, (k + 1) % 4, k]
    cx.check_close(b.circuit_budget(C[k]), want[k], 'budget of a circuit')
    cx.check_close(list(b.circuit_budgets([C[i] for i in sel])), [want[i] for i in sel], 'budgets')
    pre = b.get_precomp_for_circuits([C[i] for i in sel])
    cx.check_close(list(b.circuit_budgets([C[i] for i in sel], pre)), [want[i] for i in sel], 'precomputed budgets')
    d = b.get_descriptive_dict()
    for o, x in zip(ops, v):
        cx.check_close(b.get_op_budget(o), ab(x), 'budget of an operation')
        cx.check_close(d[o][1], ab(x), 'described budget')
    cx.check(('SPAM' in d) == bool(s), 'SPAM described')
    if s: cx.check_close(d['SPAM'][1], ab(v[3]), 'described SPAM budget')
