"""P23: objective functions equal their statistical definition (objects/objectivefns, tools/likelihoodfns, tools/chi2fns)."""
import math
import time
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects import objectivefns as OF
from pygsti.tools import likelihoodfns as LF
from pygsti.tools import chi2fns as CF

MODS = ['pygsti.objects.objectivefns', 'pygsti.tools.likelihoodfns', 'pygsti.tools.chi2fns', 'pygsti.tools.listtools', 'pygsti.tools.slicetools']
META = {'assumptions': ['the model is a stub that reports symbolic probabilities (in [-1/2, 3/2]), first and second derivatives (in [-1, 1]) for two circuits with one or two '
                        'observed outcomes each; counts are symbolic positive reals or zero; log is an uninterpreted function of its argument in the solver',
                        'CPTP and SPAM penalty vectors (eigenvalue based) are outside; they appear only as stubs that fix their place in the residual vector']}
COMMON = dict(modules=MODS, kinds='f', fork_ite=True)
NP = 2
CIRCS = [('Gx',), ('Gy', 'Gi')]


class Tree:
    myFinalElsToParentFinalElsMap = None

    def __init__(self, n):
        self.n = n

    def num_final_elements(self):
        return self.n

    def num_final_strings(self):
        return len(CIRCS)

    def get_sub_trees(self):
        return [self]

    def distribute(self, comm):
        return [0], {0: 0}, None

    def final_element_indices(self, parent):
        return slice(0, self.n)

    def __len__(self):
        return self.n


class Row:
    def __init__(self, d, tot):
        self.counts = d
        self.total = tot

    def fraction(self, o):
        return self.counts.get(o, 0) / self.total

    def __getitem__(self, o):
        return self.counts.get(o, 0)


class DS(dict):
    def get_degrees_of_freedom(self, c=None):
        return 7


class Prof:
    def add_time(self, *a, **k):
        pass


class Basis:
    pass


class Mdl:
    """stub model: probabilities and their derivatives are the harness's symbols"""
    basis = Basis()

    def __init__(self, cx, nout, p, dp=None, hp=None, full=(2, 2)):
        self.cx, self.p, self.dp, self.hp, self.full = cx, p, dp, hp, full
        self.vec = None
        off = 0
        self.lookup, self.olook = {}, {}
        for i, n in enumerate(nout):
            self.lookup[i] = slice(off, off + n)
            self.olook[i] = [('%d' % k,) for k in range(n)]
            off += n
        self.tree = Tree(off)
        self.operations = {}
        self.preps = {}
        self.povms = {}

    def num_params(self):
        return NP

    num_nongauge_params = num_params

    def get_dimension(self):
        return 4

    def get_simtype(self):
        return 'matrix'

    def get_num_outcomes(self, c):
        return self.full[CIRCS.index(c)]

    def from_vector(self, v):
        self.vec = v

    def to_vector(self):
        return self.vec

    def bulk_evaltree_from_resources(self, circuits, *a, **k):
        return self.tree, None, None, self.lookup, self.olook

    def simplify_circuits(self, circuits, ds):
        return None, self.lookup, self.olook, self.tree.n

    def bulk_fill_probs(self, mx, tree, clipTo=None, check=False, comm=None):
        for i in range(tree.n):
            mx[i] = self.p[i]

    def bulk_fill_dprobs(self, mx, tree, prMxToFill=None, clipTo=None, check=False, comm=None, wrtBlockSize=None, profiler=None, gatherMemLimit=None):
        for i in range(tree.n):
            for a in range(NP):
                mx[i, a] = self.dp[i][a]
        if prMxToFill is not None:
            self.bulk_fill_probs(prMxToFill, tree)

    def bulk_fill_hprobs(self, mx, tree, prMxToFill=None, derivMxToFill=None, clipTo=None, check=False, comm=None, *a, **k):
        for i in range(tree.n):
            for a in range(NP):
                for b in range(NP):
                    mx[i, a, b] = self.hp[i][a][b]
        if prMxToFill is not None:
            self.bulk_fill_probs(prMxToFill, tree)
        if derivMxToFill is not None:
            self.bulk_fill_dprobs(derivMxToFill, tree)

    def bulk_hprobs_by_block(self, tree, slicetups, ret12, comm):
        for s1, s2 in slicetups:
            A, B = range(NP)[s1], range(NP)[s2]
            h = self.cx.array([self.hp[i][a][b] for i in range(tree.n) for a in A for b in B], (tree.n, len(A), len(B)), 'f')
            d = self.cx.array([self.dp[i][a] * self.dp[i][b] for i in range(tree.n) for a in A for b in B], (tree.n, len(A), len(B)), 'f')
            yield s1, s2, h, d


def setup(cx, cnts, full, focus, deriv=0, plo=-0.5, phi=1.5):
    """(model, dataset, per-element counts, totals, p, groups, sparse groups): circuit `focus` has symbolic probabilities and derivatives"""
    nout = [len(x) for x in cnts]
    n = sum(nout)
    p, dp, hp, c, N, groups = [], [], [], [], [], []
    ds = DS()
    k = 0
    for ci, cs in enumerate(cnts):
        sym = ci == focus
        for j in range(len(cs)):
            p.append(cx.real('p%d' % j, plo, phi) if sym else 0.375 + 0.25 * j)
            dp.append(cx.reals('dp%d_' % j, NP, -1, 1) if sym and deriv else [0.5 - j, 0.25 * j + 1])
            h = [cx.real('h%d_%d' % (j, t), -1, 1) if sym and deriv > 1 else 0.5 * t - j for t in range(3)]
            hp.append([[h[0], h[1]], [h[1], h[2]]])
        tot = sum(cs)
        c += list(cs)
        N += [tot] * len(cs)
        groups.append(list(range(k, k + len(cs))))
        k += len(cs)
        ds[CIRCS[ci]] = Row({('%d' % j,): x for j, x in enumerate(cs) if x}, tot)
    m = Mdl(cx, nout, p, dp, hp, full)
    m.vec = np.array([0.5, -0.25])
    om = [g for ci, g in enumerate(groups) if nout[ci] < full[ci]]
    return m, ds, c, N, p, groups, om


# (counts per circuit, number of outcomes of each circuit, circuit with symbolic probabilities)
CASES = [dict(cnts=((3.0, 5.0), (8.0,)), full=(2, 2), focus=0), dict(cnts=((0, 6.0), (5.0, 2.0)), full=(2, 2), focus=0),
         dict(cnts=((3.0, 1.0), (8.0,)), full=(2, 2), focus=1), dict(cnts=((3.0,), (2.0, 6.0)), full=(2, 3), focus=1),
         dict(cnts=((0, 3.0), (2.0,)), full=(3, 3), focus=0)]


def cases(cx, deriv=0):
    return setup(cx, cx.p['cnts'], cx.p['full'], cx.p['focus'], deriv)


def rho(x, a):
    """(value, first, second derivative) of the regularised Poisson term of an outcome without counts"""
    if x >= a:
        return x, 1, 0
    return -x * x * x / (3 * a**2) + x * x / a + a / 3, -x * x / a**2 + 2 * x / a, -2 * x / a**2 + 2 / a


def lg(x):
    return x.log() if hasattr(x, 'log') else math.log(x)


def pois(c, N, p, m, a, const=True, poisson=True):
    """(value, first, second derivative by p) of the term  N p - c log p (+ c log f - c), continued quadratically below m"""
    if c == 0:
        if not poisson:
            return 0, 0, 0
        v, d, d2 = rho(p, a)
        return N * v, N * d, N * d2
    Np = N if poisson else 0
    low = bool(p < m)
    q = m if low else p
    base = (c * (math.log(c / N) - 1) if const else 0) - c * lg(q) + Np * q
    if base < 0:
        base = 0
    if low:
        S, S2 = Np - c / m, c / (2 * m * m)
        return base + S * (p - m) + S2 * (p - m) * (p - m), S + 2 * S2 * (p - m), 2 * S2
    return base, Np - c / q, c / (q * q)


def clip_lo(p, m):
    return m if p < m else p


def clip(p, m):
    return m if p < m else (1 - m if p > 1 - m else p)


CUTS = [(0.125, 0.25), (1e-4, 1e-3), (0.25, 0.125)]


def cuts(cx):
    return cx.choice('cut', CUTS if cx.tier == 'thorough' else CUTS[:2])


def mk_logl(cx, m, c, N, minp, a, ffg=None, cp=0, sp=0):
    return OF.LogLFunction(m, m.tree, m.lookup, CIRCS, None, cp, sp, np.array(c, 'd'), np.array(N, 'd'), minp, a, (-1e6, 1e6), None, None, ffg, True, 100, False, None, Prof(), 0)


def omitted(g, p, m):
    return 1 - sum(clip_lo(p[i], m) for i in g)


def logl_terms(c, N, p, groups, om, minp, a, const=True, poisson=True):
    want = [pois(c[i], N[i], p[i], minp, a, const, poisson)[0] for i in range(len(c))]
    if poisson:
        for g in om:
            want[g[0]] = want[g[0]] + N[g[0]] * rho(omitted(g, p, minp), a)[0]
    return want


def logl_dterms(c, N, p, dp, groups, om, minp, a, poisson=True):
    want = [[pois(c[i], N[i], p[i], minp, a, False, poisson)[1] * dp[i][k] for k in range(NP)] for i in range(len(c))]
    if poisson:
        for g in om:
            d = N[g[0]] * rho(omitted(g, p, minp), a)[1]
            for k in range(NP):
                want[g[0]][k] = want[g[0]][k] - d * sum(0 if p[i] < minp else dp[i][k] for i in g)
    return want


@harness(params=CASES, limit=90,
         encodes=['LogLFunction.__init__', 'LogLFunction.poisson_picture_logl', 'LogLFunction._poisson_picture_v_from_probs'],
         bounds='2 circuits with 1-2 recorded outcomes, complete or sparse data, zero counts; probabilities of one circuit symbolic; two (min-prob, radius) pairs', **COMMON)
def logl_value(cx):
    m, ds, c, N, p, groups, om = cases(cx)
    minp, a = cuts(cx)
    v = mk_logl(cx, m, c, N, minp, a).fn(m.vec)
    want = logl_terms(c, N, p, groups, om, minp, a)
    cx.check_shape(v, (len(c),), "one residual per outcome")
    for i in range(len(c)):
        cx.check_close(v[i] * v[i], want[i], "squared residual %d is the Poisson log-likelihood term" % i)


@harness(params=CASES, limit=120, encodes=['LogLFunction.poisson_picture_jacobian'],
         bounds='as logl_value, with two symbolic derivatives per probability', **COMMON)
def logl_jac(cx):
    m, ds, c, N, p, groups, om = cases(cx, 1)
    minp, a = cuts(cx)
    f = mk_logl(cx, m, c, N, minp, a)
    t = logl_terms(c, N, p, groups, om, minp, a)
    for x in t:
        cx.assume(x > 0.01)
    J = f.jfn(m.vec)
    v = f.fn(m.vec)
    want = logl_dterms(c, N, p, m.dp, groups, om, minp, a)
    cx.check_shape(J, (len(c), NP), "jacobian")
    for i in range(len(c)):
        for k in range(NP):
            cx.check_close(2 * v[i] * J[i, k], want[i][k], "derivative %d of squared residual %d" % (k, i))


@harness(params=[dict(x, poisson=b) for x in CASES for b in (True, False)], limit=120,
         encodes=['likelihoodfns.logl_terms', 'likelihoodfns.logl', 'likelihoodfns.logl_max_terms', 'likelihoodfns.logl_max', 'likelihoodfns.two_delta_logl', 'likelihoodfns.two_delta_logl_terms'],
         bounds='as logl_value, Poisson or multinomial picture', **COMMON)
def logl_tools(cx):
    m, ds, c, N, p, groups, om = cases(cx)
    minp, a = cuts(cx)
    po = cx.p['poisson']
    want = [-x for x in logl_terms(c, N, p, groups, om, minp, a, False, po)]
    per = [sum(want[i] for i in g) for g in groups]
    cache = {} if cx.choice('cache', [False, True]) else None
    got = LF.logl_terms(m, ds, CIRCS, minp, (-1e6, 1e6), a, po, evaltree_cache=cache)
    cx.check_shape(got, (len(CIRCS),), "one term per circuit")
    for i in range(len(CIRCS)):
        cx.check_close(got[i], per[i], "log-likelihood of circuit %d" % i)
    cx.check_close(LF.logl(m, ds, CIRCS, minp, (-1e6, 1e6), a, po, evaltree_cache=cache), sum(per), "total log-likelihood")
    mx = LF.logl_max_terms(m, ds, CIRCS, po, evaltree_cache=cache)
    wm = [sum(c[i] * (math.log(c[i] / N[i]) - (1 if po else 0)) for i in g if c[i]) for g in groups]
    for i in range(len(CIRCS)):
        cx.check_close(mx[i], wm[i], "upper bound of circuit %d" % i)
    cx.check_close(LF.logl_max(m, ds, CIRCS, po, evaltree_cache=cache), sum(wm), "upper bound")
    cx.check_close(LF.two_delta_logl(m, ds, CIRCS, minp, (-1e6, 1e6), a, po, evaltree_cache=cache), 2 * (sum(wm) - sum(per)), "2 delta log-likelihood")
    td = LF.two_delta_logl_terms(m, ds, CIRCS, minp, (-1e6, 1e6), a, po, evaltree_cache=cache)
    for i in range(len(CIRCS)):
        cx.check_close(td[i], 2 * (wm[i] - per[i]), "2 delta log-likelihood of circuit %d" % i)


@harness(params=[dict(x, poisson=b) for x in CASES for b in (True, False)], limit=120, encodes=['likelihoodfns.logl_jacobian'],
         bounds='as logl_jac', **COMMON)
def logl_grad(cx):
    m, ds, c, N, p, groups, om = cases(cx, 1)
    minp, a = cuts(cx)
    po = cx.p['poisson']
    want = logl_dterms(c, N, p, m.dp, groups, om, minp, a, po)
    G = LF.logl_jacobian(m, ds, CIRCS, minp, (-1e6, 1e6), a, po)
    cx.check_shape(G, (NP,), "gradient")
    for k in range(NP):
        cx.check_close(G[k], -sum(w[k] for w in want), "log-likelihood gradient %d" % k)


@harness(params=[dict(x, poisson=b) for x in CASES[:2] for b in (True, False)] + [dict(x, poisson=False) for x in CASES[2:]], limit=120,
         encodes=['likelihoodfns.logl_hessian', 'likelihoodfns.logl_approximate_hessian'],
         bounds='as logl_jac, with symbolic second derivatives; Poisson picture with complete data only (see the known finding)', **COMMON)
def logl_hess(cx):
    m, ds, c, N, p, groups, om = cases(cx, 2)
    minp, a = cuts(cx)
    po = cx.p['poisson']
    H = LF.logl_hessian(m, ds, CIRCS, minp, (-1e6, 1e6), a, po)
    A = LF.logl_approximate_hessian(m, ds, CIRCS, minp, (-1e6, 1e6), a, po)
    T = [pois(c[i], N[i], p[i], minp, a, False, po) for i in range(len(c))]
    cx.check_shape(H, (NP, NP), "hessian")
    for k in range(NP):
        for l in range(NP):
            cx.check_close(A[k, l], -sum(T[i][2] * m.dp[i][k] * m.dp[i][l] for i in range(len(c))), "approximate hessian %d,%d" % (k, l))
            w = sum(T[i][2] * m.dp[i][k] * m.dp[i][l] + T[i][1] * m.hp[i][k][l] for i in range(len(c)))
            if po:
                for g in om:
                    _, d1, d2 = rho(omitted(g, p, minp), a)
                    on = [i for i in g if not p[i] < minp]
                    w = w - N[g[0]] * d1 * sum(m.hp[i][k][l] for i in on) + N[g[0]] * d2 * sum(m.dp[i][k] for i in on) * sum(m.dp[i][l] for i in on)
            cx.check_close(H[k, l], -w, "hessian %d,%d" % (k, l))


def chi_w(c, N, p, m):
    q = clip(p, m)
    return (p - c / N) * (p - c / N) * N / q


def mk_chi2(m, c, N, minp, cls=OF.Chi2Function, reg=0, cp=0, sp=0, verb=0, fw=None):
    a = [m, m.tree, m.lookup, CIRCS, None, reg, cp, sp, np.array(c, 'd'), np.array(N, 'd')] + ([np.array(fw, 'd')] if fw is not None else [])
    return cls(*(a + [minp, (-1e6, 1e6), None, None]), profiler=Prof(), verbosity=verb)


def chi_terms(c, N, p, om, minp, fw=None):
    t = [chi_w(c[i], N[i], p[i], minp) if fw is None else (fw[i] * (p[i] - c[i] / N[i])) * (fw[i] * (p[i] - c[i] / N[i])) for i in range(len(c))]
    for g in om:
        o = 1 - sum(p[i] for i in g)
        t[g[0]] = t[g[0]] + N[g[0]] * o * o / clip(o, minp)
    return t


def chi_dterms(c, N, p, dp, om, minp, fw=None):
    D = []
    for i in range(len(c)):
        q = clip(p[i], minp)
        f = c[i] / N[i]
        if fw is not None:
            d = 2 * fw[i] * fw[i] * (p[i] - f)
        elif p[i] < minp or p[i] > 1 - minp:
            d = 2 * N[i] * (p[i] - f) / q
        else:
            d = 2 * N[i] * (p[i] - f) / q - N[i] * (p[i] - f) * (p[i] - f) / (q * q)
        D.append([d * dp[i][k] for k in range(NP)])
    for g in om:
        o = 1 - sum(p[i] for i in g)
        q = clip(o, minp)
        n = N[g[0]]
        d = 2 * n * o / q if (o < minp or o > 1 - minp) else n
        for k in range(NP):
            D[g[0]][k] = D[g[0]][k] - d * sum(dp[i][k] for i in g)
    return D


FW = [1.5, 0.5, 2.0, 0.75]


@harness(params=[dict(x, fw=b) for x in CASES for b in (False, True)], limit=120,
         encodes=['Chi2Function.__init__', 'Chi2Function.simple_chi2', 'Chi2Function.simple_jac', 'Chi2Function.get_weights', 'Chi2Function.get_dweights', 'Chi2Function.update_v_for_omitted_probs',
                  'Chi2Function.update_dprobs_for_omitted_probs', 'FreqWeightedChi2Function'],
         bounds='as logl_jac; true and frequency-weighted chi-squared', **COMMON)
def chi2_obj(cx):
    m, ds, c, N, p, groups, om = cases(cx, 1)
    minp, _ = cuts(cx)
    fw = FW[:len(c)] if cx.p['fw'] else None
    f = mk_chi2(m, c, N, minp, OF.FreqWeightedChi2Function if fw else OF.Chi2Function, fw=fw)
    v = f.fn(m.vec)
    want = chi_terms(c, N, p, om, minp, fw)
    cx.check_shape(v, (len(c),), "one residual per outcome")
    first = [g[0] for g in om]
    for i in range(len(c)):
        cx.check_close(v[i] * v[i], want[i], "squared residual %d is the chi-squared term" % i)
        if i not in first:
            cx.check(limplies(p[i] >= c[i] / N[i], v[i] >= 0), "sign of residual %d" % i)
    J = f.jfn(m.vec)
    D = chi_dterms(c, N, p, m.dp, om, minp, fw)
    cx.check_shape(J, (len(c), NP), "jacobian")
    for i in range(len(c)):
        cx.assume(want[i] > 1e-4)
        for k in range(NP):
            cx.check_close(2 * v[i] * J[i, k], D[i][k], "derivative %d of squared residual %d" % (k, i), tol=1e-6)


@harness(params=[dict(kind=k, verb=v) for k in ('reg', 'cp', 'sp', 'both') for v in (0, 5)], limit=90,
         encodes=['Chi2Function.regularized_chi2', 'Chi2Function.regularized_jac', 'Chi2Function.penalized_chi2', 'Chi2Function.penalized_jac', 'Chi2Function.verbose_chi2', 'Chi2Function.verbose_jac'],
         bounds='symbolic parameter vector, symbolic penalty vectors in place of the eigenvalue penalties; quiet and verbose code paths', **COMMON)
def chi2_extra(cx):
    m, ds, c, N, p, groups, om = setup(cx, ((3.0, 5.0),) * 2, (2, 2), None, 0)
    k = cx.p['kind']
    vec = cx.array(cx.reals('vec', NP, -2, 2), (NP,), 'f')
    m.vec = vec
    cpv, spv = cx.reals('cp', 2, 0, 1), cx.reals('sp', 3, 0, 1)
    cpj, spj = cx.realmx('cpj', 2, NP), cx.realmx('spj', 3, NP)

    def fill(J):
        def f(out, *a):
            for i in range(J.shape[0]):
                for b in range(NP):
                    out[i, b] = J[i, b]
            return J.shape[0]
        return f
    old = {n: getattr(OF, n) for n in ('_cptp_penalty_size', '_spam_penalty_size', '_cptp_penalty', '_spam_penalty', '_cptp_penalty_jac_fill', '_spam_penalty_jac_fill')}
    new = dict(_cptp_penalty_size=lambda m: 2, _spam_penalty_size=lambda m: 3, _cptp_penalty=lambda *a: cx.array(cpv, (2,), 'f'), _spam_penalty=lambda *a: cx.array(spv, (3,), 'f'),
               _cptp_penalty_jac_fill=fill(cpj), _spam_penalty_jac_fill=fill(spj))
    try:
        for n in new:
            setattr(OF, n, new[n])
        import sys as _sys
        f = mk_chi2(m, c, N, 0.125, reg=0.5 if k == 'reg' else 0, cp=1 if k in ('cp', 'both') else 0, sp=1 if k in ('sp', 'both') else 0)
        if cx.p['verb']:
            f.fn, f.jfn = f.verbose_chi2, f.verbose_jac
            cx.print_floats()
            f.printer = type('Q', (), {'log': lambda *a, **k: None, 'verbosity': 5})()
        v = f.fn(vec)
        J = f.jfn(vec)
    finally:
        for n in old:
            setattr(OF, n, old[n])
    base = chi_terms(c, N, p, om, 0.125)
    n = len(c)
    for i in range(n):
        cx.check_close(v[i] * v[i], base[i], "chi-squared part")
    D = chi_dterms(c, N, p, m.dp, om, 0.125)
    for i in range(n):
        for b in range(NP):
            cx.check_close(2 * v[i] * J[i, b], D[i][b], "chi-squared part of the jacobian")
    if k == 'reg':
        want = [0.5 * ite(x > 1, x - 1, ite(x < -1, -x - 1, 0)) for x in vec]
        dw = [[0.5 * (ite(x > 1, 1, ite(x < -1, -1, 0))) if i == b else 0 for b in range(NP)] for i, x in enumerate(vec)]
    else:
        want = (cpv if k in ('cp', 'both') else []) + (spv if k in ('sp', 'both') else [])
        dw = ([list(r) for r in cpj] if k in ('cp', 'both') else []) + ([list(r) for r in spj] if k in ('sp', 'both') else [])
    cx.check_shape(v, (n + len(want),), "residual vector")
    cx.check_shape(J, (n + len(want), NP), "jacobian")
    for i, w in enumerate(want):
        cx.check_close(v[n + i], w, "penalty %d" % i)
        for b in range(NP):
            cx.check_close(J[n + i, b], dw[i][b], "derivative of penalty %d" % i)


@harness(limit=60, encodes=['LogLFunction.poisson_picture_logl', 'LogLFunction.poisson_picture_jacobian'], bounds='forcing function with two concrete gradients, symbolic parameters', **COMMON)
def forcing(cx):
    m, ds, c, N, p, groups, om = setup(cx, ((3.0, 5.0),) * 2, (2, 2), None, 0)
    g = np.array([[0.5, -1.0], [2.0, 0.25]])
    f = mk_logl(cx, m, c, N, 0.125, 0.25, ffg=g)
    vec = cx.array(cx.reals('vec', NP, -1, 1), (NP,), 'f')
    m.vec = vec
    v, J = f.fn(vec), f.jfn(vec)
    n = len(c)
    cx.check_shape(v, (n + 2,), "residual vector")
    for i in range(2):
        cx.check_close(v[n + i] * v[n + i], f.forceShift - sum(g[i, k] * vec[k] for k in range(NP)), "forcing term")
        for k in range(NP):
            cx.check_close(2 * v[n + i] * J[n + i, k], -g[i, k], "derivative of the forcing term")


@harness(params=CASES, limit=120, encodes=['chi2fns.chi2_terms', 'chi2fns.chi2'], bounds='as logl_hess (complete data for the hessian)', **COMMON)
def chi2_tools(cx):
    m, ds, c, N, p, groups, om = cases(cx, 2)
    minp, _ = cuts(cx)

    def q(x):
        return minp if x < minp else x
    t = [N[i] * (p[i] - c[i] / N[i]) * (p[i] - c[i] / N[i]) / q(p[i]) for i in range(len(c))]
    for g in om:
        o = 1 - sum(p[i] for i in g)
        t[g[0]] = t[g[0]] + N[g[0]] * o * o / clip(o, minp)
    per = [sum(t[i] for i in g) for g in groups]
    got = CF.chi2_terms(m, ds, CIRCS, minp)
    for i in range(len(CIRCS)):
        cx.check_close(got[i], per[i], "chi-squared of circuit %d" % i)
    cx.check_close(CF.chi2(m, ds, CIRCS, minProbClipForWeighting=minp), sum(per), "chi-squared")
    D = [0] * NP
    H = [[0] * NP for _ in range(NP)]
    A = [[0] * NP for _ in range(NP)]
    for i in range(len(c)):
        x, f, n = p[i], c[i] / N[i], N[i]
        if x < minp:
            d1, d2 = 2 * n * (x - f) / minp, 2 * n / minp
        else:
            d1, d2 = n * (1 - f * f / (x * x)), 2 * n * f * f / (x * x * x)
        for k in range(NP):
            D[k] = D[k] + d1 * m.dp[i][k]
            for l in range(NP):
                A[k][l] = A[k][l] + d2 * m.dp[i][k] * m.dp[i][l]
                H[k][l] = H[k][l] + d1 * m.hp[i][k][l] + d2 * m.dp[i][k] * m.dp[i][l]
    for g in om:
        o = 1 - sum(p[i] for i in g)
        n = N[g[0]]
        d = 2 * n * o / clip(o, minp) if (o < minp or o > 1 - minp) else n
        for k in range(NP):
            D[k] = D[k] - d * sum(m.dp[i][k] for i in g)
    v, G = CF.chi2(m, ds, CIRCS, returnGradient=True, minProbClipForWeighting=minp)
    cx.check_close(v, sum(per), "chi-squared with gradient")
    for k in range(NP):
        cx.check_close(G[k], D[k], "gradient %d" % k, tol=1e-6)
    if not om:
        for appr in (True, False):
            for grad in (True, False):
                r = CF.chi2(m, ds, CIRCS, returnGradient=grad, returnHessian=True, approximateHessian=appr, minProbClipForWeighting=minp)
                cx.check_close(r[0], sum(per), "chi-squared with hessian")
                for k in range(NP):
                    if grad:
                        cx.check_close(r[1][k], D[k], "gradient %d" % k, tol=1e-6)
                    for l in range(NP):
                        cx.check_close(r[-1][k, l], (A if appr else H)[k][l], "hessian %d,%d (approximate: %s)" % (k, l, appr), tol=1e-6)


@harness(limit=60, encodes=['chi2fns.chi2fn', 'chi2fns.chi2fn_2outcome', 'chi2fns.chi2fn_wfreqs', 'chi2fns.chi2fn_2outcome_wfreqs', 'likelihoodfns.two_delta_loglfn', 'likelihoodfns._patched_logl_fn'],
         bounds='symbolic probability, four counts, two clips', **COMMON)
def scalars(cx):
    N, n = 8.0, cx.choice('n', [0.0, 3.0, 8.0])
    f = n / N
    p = cx.real('p', -0.5, 1.5)
    minp, _ = cuts(cx)
    cx.assume(p != minp)  # (the two branches agree there; log of the symbol and log of the constant do not, symbolically)
    q = minp if p < minp else p
    qq = clip(p, minp)
    pa = cx.array([p], (1,), 'f')
    cx.check_close(CF.chi2fn(N, pa, f, minp)[0], N * (p - f) * (p - f) / q, "chi2fn")
    cx.check_close(CF.chi2fn_2outcome(N, pa, f, minp)[0], N * (p - f) * (p - f) / (qq * (1 - qq)), "chi2fn_2outcome")
    f1 = (n + 1) / (N + 2)
    cx.check_close(CF.chi2fn_2outcome_wfreqs(N, pa, f)[0], N * (p - f) * (p - f) / (f1 * (1 - f1)), "chi2fn_2outcome_wfreqs")
    cx.check_close(CF.chi2fn_wfreqs(N, pa, f)[0], N * (p - f) * (p - f) / f1, "chi2fn_wfreqs")
    for po in (True, False):
        want = 2 * (n * (math.log(f) - lg(q)) if n else 0)
        if po:
            want = want - 2 * N * (f - q)
        got = LF.two_delta_loglfn(N, pa, np.array([f]), minp, po)
        cx.check_close(got[0], want, "two_delta_loglfn")
    w = 0 if n == 0 else n * lg(q)
    if n and p < minp:
        w = w + n / minp * (p - minp) - n / (2 * minp * minp) * (p - minp) * (p - minp)
    cx.check_close(LF._patched_logl_fn(n, p, minp), w, "_patched_logl_fn")


class _Fixed:
    """concrete inputs for the known finding"""
    p = dict(CASES[4])
    tier = 'quick'

    def real(self, name, lo, hi):
        return {'p0': 0.0625, 'p1': 0.75}.get(name, 0.5)

    def reals(self, name, n, lo, hi):
        return [0.5 - k for k in range(n)]

    def array(self, x, shape, kind):
        return np.array(x, 'd').reshape(shape)


def known():
    """logl_hessian, Poisson picture, sparse data: the term of the unrecorded outcomes"""
    cx = _Fixed()
    m, ds, c, N, p, groups, om = cases(cx, 2)
    minp, a = CUTS[0]
    H = LF.logl_hessian(m, ds, CIRCS, minp, (-1e6, 1e6), a, True)
    T = [pois(c[i], N[i], p[i], minp, a, False, True) for i in range(len(c))]
    w = sum(T[i][2] * m.dp[i][0] * m.dp[i][0] + T[i][1] * m.hp[i][0][0] for i in range(len(c)))
    for g in om:
        _, d1, d2 = rho(omitted(g, p, minp), a)
        on = [i for i in g if not p[i] < minp]
        w = w - N[g[0]] * d1 * sum(m.hp[i][0][0] for i in on) + N[g[0]] * d2 * sum(m.dp[i][0] for i in on) ** 2
    if abs(H[0, 0] + w) > 1e-6:
        return ['likelihoodfns.logl_hessian(poissonPicture=True) on circuits with unrecorded outcomes adds (1/2)d2/dp2 terms with the opposite sign '
                'and the sum of products instead of the product of sums of the first derivatives (and indexes sub-trees with full-tree indices)']
    return []


META['known_findings_cb'] = known
