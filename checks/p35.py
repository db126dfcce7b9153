"""P35: closed-form estimates (tools/rbtools, tools/group, tools/rbtheory, extras/rpe, algorithms/robust_phase_estimation)."""
import itertools, math
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite, RANGE
from pygsti import objects as O
from pygsti.objects.circuit import Circuit
from pygsti.objects.labeldicts import OutcomeLabelDict
from pygsti.tools import rbtools as RT, group as GR, rbtheory as TH
from pygsti.extras.rpe import rpetools as RP
from pygsti.algorithms import robust_phase_estimation as RPE

MODS = ['pygsti.tools.rbtools', 'pygsti.tools.group', 'pygsti.tools.rbtheory', 'pygsti.extras.rpe.rpetools', 'pygsti.algorithms.robust_phase_estimation']
META = {'assumptions': ['outside: fits (P90), eigenvalue-based decay parameters, rotation angles of gates (eigen-decompositions), theta estimation by numerical minimisation, plots and bootstrap samples; '
                        'points within 1e-9 of the edge of an interval of angles']}
PI = math.pi


@harness(params=[dict(d=d, t=t) for d in (2, 3, 4, 8, 16) for t in ('EI', 'AGI')], modules=MODS, kinds='f', encodes=['p_to_r', 'r_to_p'], bounds='all decay parameters in [-1,1], d = 2..16')
def decay(cx):
    d, t = cx.p['d'], cx.p['t']
    p = cx.real('p', -1, 1)
    r = RT.p_to_r(p, d, t)
    cx.check_close(r * d * (d if t == 'EI' else 1), (1 - p) * ((d * d - 1) if t == 'EI' else (d - 1)), 'error rate of a decay parameter')
    cx.check_close(RT.r_to_p(r, d, t), p, 'decay parameter of the error rate')
    cx.check_close(RT.p_to_r(RT.r_to_p(p, d, t), d, t), p, 'error rate of the decay parameter')
    ei, ag = RT.p_to_r(p, d, 'EI'), RT.p_to_r(p, d, 'AGI')
    cx.check_close(ei * d, ag * (d + 1), 'entanglement and average gate infidelity')
    cx.check_raises(lambda: RT.p_to_r(p, d, 'x'), 'unknown rate', ValueError)
    cx.check_raises(lambda: RT.r_to_p(p, d, 'x'), 'unknown rate', ValueError)


class Row:
    def __init__(self, d, total): self.counts = d; self.total = total


@harness(params=[dict(n=n, sub=s) for n, s in ((1, (0,)), (2, (0, 1)), (2, (1,)), (2, (1, 0)), (3, (0, 1, 2)), (3, (2, 0)), (3, (1,)))], modules=MODS, kinds='f', logic=None,
         encodes=['marginalized_success_counts', 'marginalized_hamming_distance_counts', 'hamming_distance', 'adjusted_success_probability'], bounds='1-3 qubits, symbolic counts of all outcomes, every target, all subsets of the lines')
def outcomes(cx):
    n = cx.p['n']
    bits = [''.join(b) for b in itertools.product('01', repeat=n)]
    target = cx.choice('target', bits); miss = cx.choice('miss', [None] + bits[:3])
    have = [b for b in bits if b != miss]
    c = {b: cx.real('c' + b, 0, 100) for b in have}
    lines = ('Q0', 'Q1', 'Q2')[:n]
    circ = Circuit([], lines)
    qs = tuple(lines[i] for i in cx.p['sub'])
    d = OutcomeLabelDict({(b,): v for b, v in c.items()})
    row = Row(d, cx.choice('total', [1.0, 100.0]))
    marg = lambda b: [b[i] for i in cx.p['sub']]
    hd = lambda a, b: sum(x != y for x, y in zip(a, b))
    want = [sum([c[b] for b in have if hd(marg(b), marg(target)) == k]) for k in range(len(qs) + 1)]
    got = RT.marginalized_hamming_distance_counts(row, circ, target, qs)
    cx.check(len(got) == len(want), 'number of distances')
    for k in range(len(want)): cx.check_close(got[k], want[k] + 0.0, 'counts at distance %d' % k)
    cx.check_close(RT.marginalized_success_counts(row, circ, target, qs), want[0] + 0.0, 'success counts')
    empty = Row(OutcomeLabelDict({}), 0)
    cx.check(RT.marginalized_success_counts(empty, circ, target, qs) == 0 and list(RT.marginalized_hamming_distance_counts(empty, circ, target, qs)) == [0] * (len(qs) + 1), 'empty row')
    pdf = [cx.real('h%d' % k, 0, 1) for k in range(n + 1)]
    cx.check_close(RT.adjusted_success_probability(pdf), sum((-0.5) ** k * pdf[k] for k in range(n + 1)), 'adjusted success probability')
    for b in bits: cx.check(RT.hamming_distance(b, target) == hd(b, target), 'Hamming distance')


@harness(params=[dict(n=n) for n in (1, 2, 3)], modules=MODS, kinds='f', encodes=['rescaling_factor'], bounds='1-3 lengths, 2 values each')
def rescale(cx):
    n = cx.p['n']; Ls = [cx.choice('L%d' % i, [0, 2, 6]) for i in range(n)]
    q = [[cx.real('q%d%d' % (i, j), -10, 10) for j in range(2)] for i in range(n)]
    cx.check_close(RT.rescaling_factor(Ls, q) * n, sum((q[i][0] + q[i][1]) / 2 / (Ls[i] + 2) for i in range(n)), 'rescaling factor', 1e-6)
    cx.check_raises(lambda: RT.rescaling_factor(Ls + [1], q), 'lengths', AssertionError)


def perm(p):
    m = np.zeros((len(p), len(p)))
    for i, j in enumerate(p): m[j, i] = 1
    return m


_CACHE = {}
GROUPS = {'S3': [perm(p) for p in itertools.permutations(range(3))], 'Z4': [np.array([[0., -1], [1, 0]]) ** 0 * 0 + np.linalg.matrix_power(np.array([[0., -1], [1, 0]]), k) for k in range(4)],
          'Z2': [np.eye(2), np.array([[0., 1], [1, 0]])]}


@harness(params=[dict(g=g, lab=l, n=n) for g in ('S3', 'Z4', 'Z2', 'C1') for l in (False, True) for n in (1, 2, 3) if not (g == 'C1' and (n > 1 or not l))], modules=MODS, logic='QF_FD',
         encodes=['MatrixGroup.__init__', 'MatrixGroup.product', 'MatrixGroup.get_inv', 'MatrixGroup.get_matrix', 'MatrixGroup.get_matrix_inv'], bounds='S3, Z4, Z2 (words of 1-3 elements) and the one-qubit Cliffords (single elements)')
def groups(cx):
    if cx.p['g'] == 'C1':
        if 'C1' not in _CACHE: _CACHE['C1'] = GR.construct_1Q_Clifford_group()
        g = _CACHE['C1']; mats = [np.asarray(m.todense() if hasattr(m, 'todense') else m) for m in g.mxs]; labs = g.labels
    else:
        mats = GROUPS[cx.p['g']]; labs = ['e%d' % i for i in range(len(mats))] if cx.p['lab'] else None
        g = GR.MatrixGroup(mats, labs)
    N = len(mats)
    w = [cx.choice('w%d' % i, list(range(N))) for i in range(cx.p['n'])]
    full = np.eye(mats[0].shape[0])
    for i in w: full = mats[i] @ full        # gates are applied left to right
    name = (lambda i: labs[i]) if cx.p['lab'] else (lambda i: i)
    idx = (lambda x: labs.index(x)) if cx.p['lab'] else (lambda x: int(x))
    k = g.product([name(i) for i in w])
    cx.check(bool(np.allclose(mats[idx(k)], full)), 'product of the word')
    cx.check(bool(np.allclose(mats[idx(g.product(w))] if not cx.p['lab'] else mats[int(g.product(w))], full)), 'product of indices')
    i = w[0]
    cx.check(bool(np.allclose(mats[idx(g.get_inv(name(i)))] @ mats[i], np.eye(len(full)))), 'inverse')
    cx.check(bool(np.allclose(g.get_matrix(name(i)), mats[i])) and bool(np.allclose(g.get_matrix_inv(name(i)) @ mats[i], np.eye(len(full)))), 'matrices of elements')
    cx.check(g.product([]) is None and len(g) == N, 'size')


class Cfg:
    def __init__(self, f, g=None): self.alpha_hat_func = f; self.epsilon_hat_func = g or f; self.Phi_hat_func = f


@harness(params=[dict(k=k, a=a) for k in (1, 2, 4, 8, 16) for a in ('alpha', 'epsilon', 'Phi')], modules=MODS, kinds='f', encodes=['extract_rotation_hat'], bounds='every phase and previous angle in [-pi, pi], repetitions 1..16')
def rotation(cx):
    k = cx.p['k']
    ph = cx.real('ph', -3.125, 3.125); prev = cx.real('prev', -3.125, 3.125)
    got = RP.extract_rotation_hat(1, 2, k, 3, 4, cx.p['a'], prev, Cfg(lambda x, y, nx, ny: ph + (0 if (x, y, nx, ny) == (1, 2, 3, 4) else 7)))
    if k == 1: cx.check_close(got, ph, 'first angle'); return
    cx.check(land(got >= prev - PI / k - 1e-9, got <= prev + PI / k + 1e-9), 'the branch next to the previous angle')
    cx.check(lor(*[land((got - ph / k - 2 * PI * m / k) <= 1e-7, (got - ph / k - 2 * PI * m / k) >= -1e-7) for m in range(-k - 1, k + 2)]), 'the angle has the measured phase')
    cx.check_raises(lambda: RP.extract_rotation_hat(1, 2, k, 3, 4, cx.p['a'], None, Cfg(lambda *a: ph)), 'a previous angle is needed', Exception)
    cx.check_raises(lambda: RP.extract_rotation_hat(1, 2, k, 3, 4, 'other', prev, Cfg(lambda *a: ph)), 'unknown angle', Exception)


@harness(params=[dict(n=n) for n in (1, 2, 3)], thorough_params=[dict(n=4)], modules=MODS, kinds='f', encodes=['est_angle_list', 'extract_rotation_hat'], bounds='1-3 generations (repetitions 1,2,4), symbolic counts and phases')
def angle_list(cx):
    n = cx.p['n']
    ph = {2 ** i: cx.real('ph%d' % i, -3.125, 3.125) for i in range(n)}
    DS = {}; cnt = {}
    for i in range(n):
        for s in 'sc':
            cnt[s, i] = [cx.bv('%s%d%d' % (s, i, j), 1, 50) if False else float(1 + 3 * i + j + (s == 'c')) for j in range(4)]
            DS[s, i] = dict(zip(('00', '01', '10', '11'), cnt[s, i]))
    calls = []
    def f(x, y, Nx, Ny):
        calls.append((x, y, Nx, Ny)); return ph[2 ** (len(calls) - 1)]
    cfg = Cfg(f); cfg.up_labels = ['00', '01']; cfg.dn_labels = ['10', '11']
    got = RP.est_angle_list(DS, [('s', i) for i in range(n)], [('c', i) for i in range(n)], 'alpha', rpeconfig_inst=cfg)
    cx.check(len(got) == n == len(calls), 'one angle per generation')
    for i in range(n):
        s, c = cnt['s', i], cnt['c', i]
        cx.check(calls[i] == (s[0] + s[1], c[0] + c[1], sum(s), sum(c)), 'counts given to the estimator')
        k = 2 ** i
        cx.check(lor(*[land((got[i] - ph[k] / k - 2 * PI * m / k) <= 1e-7, (got[i] - ph[k] / k - 2 * PI * m / k) >= -1e-7) for m in range(-k - 1, k + 2)]), 'the angle has the measured phase')
        if i: cx.check(land(got[i] >= got[i - 1] - PI / k - 1e-9, got[i] <= got[i - 1] + PI / k + 1e-9), 'each angle refines the previous one')


@harness(params=[dict(k=k) for k in (1, 2, 4)], modules=MODS, kinds='f', encodes=['consistency_check'], bounds='angles in [-4, 4], 1-4 repetitions')
def consistency(cx):
    k = cx.p['k']; a = cx.real('a', -4, 4); b = cx.real('b', -4, 4)
    w = PI / (2 * k)
    ins = lor(*[land(a - b - 2 * PI * m < w - 1e-9, a - b - 2 * PI * m > -w + 1e-9) for m in (-2, -1, 0, 1, 2)])
    out = land(*[lor(a - b - 2 * PI * m > w + 1e-9, a - b - 2 * PI * m < -w - 1e-9) for m in (-2, -1, 0, 1, 2)])
    r = RP.consistency_check(a, b, k)
    cx.check(limplies(ins, r == 1.0), 'angles that agree modulo 2 pi within the wedge are consistent')
    cx.check(limplies(out, r == 0.0), 'angles that differ by more than the wedge are not')


@harness(params=[dict(n=n) for n in (1, 2, 3)], modules=MODS, kinds='f', encodes=['RobustPhaseEstimation.__init__', 'RobustPhaseEstimation.Theta_N'], bounds='1-3 generations (lengths 1,2,4), phases in [-pi, pi]')
def robust(cx):
    n = cx.p['n']
    class Q: pass
    q = Q(); q.raw_angles = {2 ** i: cx.real('ph%d' % i, -3.125, 3.125) for i in range(n)}
    r = RPE.RobustPhaseEstimation(q)
    est = list(r.angle_estimates)
    cx.check(len(est) == n, 'one estimate per generation')
    prev = PI
    for i, e in enumerate(est):
        N = 2 ** i; ph = q.raw_angles[N]
        cx.check(lor(*[land((e - ph / N - 2 * PI * m / N) <= 1e-7, (e - ph / N - 2 * PI * m / N) >= -1e-7) for m in range(-N - 1, 2 * N + 2)]), 'the estimate has the measured phase')
        cx.check(lor(*[land(e - prev - 2 * PI * m <= PI / N + 1e-9, e - prev - 2 * PI * m >= -PI / N - 1e-9) for m in (-1, 0, 1)]), 'the estimate is the one next to the previous estimate')
        prev = e


class FakeModel:
    def __init__(self, ops, dim): self.operations = ops; self.dim = dim


@harness(params=[dict(g=g, w=w, map=mp) for g in ('Z2', 'Z4') for w in (False, True) for mp in (False, True)], modules=MODS, kinds='f', encodes=['R_matrix'], bounds='groups of order 2 and 4, symbolic 4x4 gates and weights')
def rmatrix(cx):
    mats = GROUPS[cx.p['g']]; N = len(mats); labs = ['e%d' % i for i in range(N)]
    g = GR.MatrixGroup(mats, labs)
    names = ['G%d' % i for i in range(N)] if cx.p['map'] else labs
    use = names[:2] if N == 4 and cx.choice('part', [False, True]) else names
    M = {k: cx.realmx('m' + k, 4, 4, lo=-2, hi=2) for k in use}
    w = {k: cx.choice('w' + k, [1.0, 0.5]) for k in use} if cx.p['w'] else None
    R = TH.R_matrix(FakeModel(M, 4), g, {l: n for l, n in zip(labs, names) if n in use} if cx.p['map'] else None, w)
    tot = sum((w or {k: 1.0 for k in use}).values())
    cx.check(R.shape == (4 * N, 4 * N), 'shape')
    for i in range(N):
        for j in range(N):
            # the element that takes i to j (applied after i)
            k = [t for t in range(N) if np.allclose(mats[t] @ mats[i], mats[j])][0]
            for a in range(4):
                for b in range(4):
                    want = M[names[k]][a, b] * (w[names[k]] if w else 1.0) / tot if names[k] in use else 0.0
                    cx.check_close(R[4 * j + a, 4 * i + b], want, 'block %d,%d' % (j, i), 1e-6)
