"""P32: Lindblad error generators (tools/lindbladtools, tools/optools lindblad functions, objects/operation.LindbladErrorgen)."""
import copy
import itertools
from collections import OrderedDict
import numpy as np
from symex.harness import harness, land, lor, lnot
from pygsti.tools import lindbladtools as LT
from pygsti.tools import optools as OT
from pygsti.tools import basistools as BT
from pygsti.objects import basis as B
from pygsti.objects import operation as OP

MODS = ['pygsti.tools.lindbladtools', 'pygsti.tools.optools', 'pygsti.tools.matrixtools', 'pygsti.objects.operation', 'pygsti.objects.replib.slowreplib',
        'pygsti.tools.basistools']
META = {'assumptions': ['basis elements are concrete (pp, gm and qt bases); matrices, coefficients and parameters are symbolic reals in a box',
                        'sparse generators hold concrete entries: they are compared with the dense ones element by element',
                        'the inverse map from a general positive coefficient matrix to its Cholesky parameters (eig/cholesky in LAPACK) is outside; the forward map is covered']}
COMMON = dict(modules=MODS, limit=300)


def mm(a, b): return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]
def dag(a): return [[x.conjugate() for x in r] for r in zip(*a)]
def lst(M, n): return [[M[i, j] for j in range(n)] for i in range(n)]


def superop(f, d):
    """columns are the row-major flattenings of f(E_ij)"""
    cols = [sum(f([[1. if (r, c) == (i, j) else 0. for c in range(d)] for r in range(d)]), []) for i in range(d) for j in range(d)]
    return [list(r) for r in zip(*cols)]


def add(*ms): return [[sum(x) for x in zip(*rs)] for rs in zip(*ms)]
def sc(c, m): return [[c * x for x in r] for r in m]


def ref_ham(H, d): return superop(lambda r: sc(-1j * d**.5 / 2, add(mm(H, r), sc(-1, mm(r, H)))), d)
def ref_nonham(Lm, Ln, d):
    X = mm(dag(Lm), Ln)
    return superop(lambda r: sc(d, add(mm(Ln, mm(r, dag(Lm))), sc(-.5, add(mm(r, X), mm(X, r))))), d)
def ref_affine(Q, d): return superop(lambda r: sc(sum(r[i][i] for i in range(d)), Q), d)
def ref_stoch(Q, d): return superop(lambda r: sc(d, mm(Q, mm(r, dag(Q)))), d)


def check_mx(cx, got, want, msg, tol=1e-7):
    n = len(want)
    cx.check_shape(got, (n, n), msg)
    cx.check_close([got[i, j] for i in range(n) for j in range(n)], [x for r in want for x in r], msg, tol)


@harness(params=[dict(d=d, real=r) for d in (1, 2, 3) for r in (0, 1)], kinds='fc', bounds='all complex (and all real) matrices with entries in the unit box, d=1,2,3',
         encodes=['hamiltonian_to_lindbladian', 'stochastic_lindbladian', 'affine_lindbladian', 'nonham_lindbladian'], **COMMON)
def generators(cx):
    """each generator's action on a density matrix is the documented one; they preserve or annihilate the trace as stated"""
    d = cx.p['d']
    if cx.p['real']:
        A, C = [cx.realmx(n, d, d) for n in 'AC']
    else:
        A, C = [cx.cplxmx(n, d, d) for n in 'AC']
    a, c = lst(A, d), lst(C, d)
    if cx.p['real']: a, c = [[[x + 0j for x in r] for r in m] for m in (a, c)]
    check_mx(cx, LT.hamiltonian_to_lindbladian(A), ref_ham(a, d), "Hamiltonian generator")
    check_mx(cx, LT.nonham_lindbladian(A, C), ref_nonham(a, c, d), "general generator")
    check_mx(cx, LT.affine_lindbladian(A), ref_affine(a, d), "affine generator")
    check_mx(cx, LT.stochastic_lindbladian(A), ref_stoch(a, d), "stochastic channel")
    # trace annihilation: rows of the diagonal sum to zero
    for g, nm in ((LT.hamiltonian_to_lindbladian(A), 'Hamiltonian'), (LT.nonham_lindbladian(A, C), 'general')):
        cx.check_close([sum(g[i * d + i, k] for i in range(d)) for k in range(d * d)], [0] * (d * d), "%s generator annihilates the trace" % nm)
    # Hermiticity: L(rho)^dag = L(rho^dag) for Hermitian Hamiltonian and Lm == Ln
    H = [[(a[i][j] + a[j][i].conjugate()) for j in range(d)] for i in range(d)]
    Hm = cx.array(sum(H, []), (d, d), 'c')
    for g, nm in ((LT.hamiltonian_to_lindbladian(Hm), 'Hamiltonian'), (LT.nonham_lindbladian(A, A), 'stochastic')):
        ij = [(i, j, k, l) for i in range(d) for j in range(d) for k in range(d) for l in range(d)]
        cx.check_close([g[i * d + j, k * d + l] for i, j, k, l in ij], [np.conj(g[j * d + i, l * d + k]) for i, j, k, l in ij], "%s generator preserves Hermiticity" % nm)


@harness(params=[dict(b=b) for b in ('pp', 'gm')] + [dict(b='qt')], kinds='fc', encodes=['hamiltonian_to_lindbladian', 'nonham_lindbladian', 'affine_lindbladian', 'stochastic_lindbladian', 'lindblad_error_generators'],
         bounds='sparse against dense, all basis elements, all selection modes, combined with symbolic coefficients', **COMMON)
def sparse(cx):
    """sparse generators are the dense ones"""
    d2 = 9 if cx.p['b'] == 'qt' else 4
    D = B.BuiltinBasis(cx.p['b'], d2)
    S = B.BuiltinBasis(cx.p['b'], d2, sparse=True)
    n = d2 - 1
    c = cx.bit('c') if cx.symbolic else 1
    for mode in ('diagonal', 'diag_affine', 'all'):
        for nrm in (False, True):
            h, o = OT.lindblad_error_generators(D.elements, D.elements, nrm, mode)
            hs, os_ = OT.lindblad_error_generators(S.elements, S.elements, nrm, mode)
            w = cx.reals('w_%s%d' % (mode, nrm), n)
            tot = lambda hh, f: [sum(w[k] * complex(f(hh[k])[i, j]) for k in range(n)) for i in range(d2) for j in range(d2)]
            cx.check(len(hs) == len(h) == n, "number of Hamiltonian generators")
            cx.check_close(tot(hs, lambda m: m.toarray()), tot(h, np.asarray), "sparse Hamiltonian generators")
            rows = [(o, os_)] if mode == 'diagonal' else [(o[i], os_[i]) for i in range(2 if mode == 'diag_affine' else n)]
            cx.check(len(os_) == (n if mode != 'diag_affine' else 2), "number of other generators")
            for x, y in rows:
                cx.check_close(tot(y, lambda m: m.toarray()), tot(x, np.asarray), "sparse %s generators" % mode)
        h1, o1 = OT.lindblad_error_generators(None, D.elements, False, mode)
        cx.check(h1 is None, "no Hamiltonian generators without a basis")
        h2, o2 = OT.lindblad_error_generators(D.elements, None, False, mode)
        cx.check(o2 is None, "no other generators without a basis")


def els(b, d2): return [[[complex(x) for x in r] for r in np.asarray(m)] for m in B.BuiltinBasis(b, d2).elements]


def ref_gens(b, d2, mode):
    d = int(round(d2**.5))
    e = els(b, d2)[1:]
    h = [ref_ham(m, d) for m in e]
    if mode == 'diagonal': o = [ref_nonham(m, m, d) for m in e]
    elif mode == 'diag_affine': o = [[ref_nonham(m, m, d) for m in e], [ref_affine(m, d) for m in e]]
    else: o = [[ref_nonham(m, k, d) for k in e] for m in e]
    return h, o


@harness(params=[dict(b=b, mode=m, h=h, t=t) for b in ('pp', 'gm') for m in ('diagonal', 'diag_affine', 'all') for h in (1, 0) for t in ('std', 'pp') if (h or b == 'pp')] +
         [dict(b='qt', mode='diagonal', h=1, t='std')], thorough_params=[dict(b='qt', mode='diag_affine', h=1, t='std'), dict(b='gm', mode='diag_affine', h=0, t='gm')],
         kinds='fc', encodes=['lindblad_error_generators', 'lindblad_errgen_projections', 'projections_to_lindblad_terms', 'lindblad_terms_to_projections'],
         bounds='all coefficients in the unit box; one qubit (all modes), one qutrit (diagonal)', **COMMON)
def project(cx):
    """projecting a combination of generators gives back its coefficients, normalised or not; term dictionaries round trip"""
    b, mode, hh = cx.p['b'], cx.p['mode'], cx.p['h']
    d2 = 9 if b == 'qt' else 4
    d, n = int(round(d2**.5)), d2 - 1
    hg, og = ref_gens(b, d2, mode)
    hc = cx.reals('h', n)
    if mode == 'diagonal': oc = cx.reals('o', n); flat = list(zip(oc, og))
    elif mode == 'diag_affine': oc = [cx.reals('s', n), cx.reals('a', n)]; flat = [(c, g) for i in (0, 1) for c, g in zip(oc[i], og[i])]
    else:
        oc = lst(cx.cplxmx('o', n, n), n)
        flat = [(oc[i][j], og[i][j]) for i in range(n) for j in range(n)]
    L = [[sum([c * g[i][j] for c, g in zip(hc, hg)] + [c * g[i][j] for c, g in flat]) for j in range(d2)] for i in range(d2)]
    E = cx.array(sum(L, []), (d2, d2), 'c')
    typ = cx.p['t']
    if typ != 'std':
        E = BT.change_basis(E, 'std', typ) if mode != 'all' else E
        if mode == 'all': typ = 'std'
    bo = B.BuiltinBasis(b, d2)
    hp, op, gh, go = OT.lindblad_errgen_projections(E, bo if hh else None, bo, typ, normalize=False, return_generators=True, other_mode=mode)
    if hh:
        cx.check_shape(hp, (n,), "Hamiltonian projections")
        cx.check_close(list(hp), hc, "Hamiltonian projections")
        for k in range(n): cx.check_close(sum(lst(gh[k], d2), []), sum(hg[k], []), "returned Hamiltonian generator")
    else:
        cx.check(hp is None and gh is None, "no Hamiltonian projections")
    fo = [op[k] for k in range(n)] if mode == 'diagonal' else [op[i, k] for i in range(2 if mode == 'diag_affine' else n) for k in range(n)]
    cx.check_shape(op, {'diagonal': (n,), 'diag_affine': (2, n), 'all': (n, n)}[mode], "other projections")
    cx.check_close(fo, [c for c, _ in flat], "other projections")
    # normalised generators: coefficient times norm
    hn, on = OT.lindblad_errgen_projections(E, bo if hh else None, bo, typ, normalize=True, other_mode=mode)
    nrm = lambda g: sum(abs(x)**2 for r in g for x in r)**.5
    if hh: cx.check_close([hn[k] for k in range(n)], [c * nrm(g) for c, g in zip(hc, hg)], "normalised Hamiltonian projections")
    fo = [on[k] for k in range(n)] if mode == 'diagonal' else [on[i, k] for i in range(2 if mode == 'diag_affine' else n) for k in range(n)]
    cx.check_close(fo, [c * nrm(g) for c, g in flat], "normalised other projections")
    # terms
    T, tb = OT.projections_to_lindblad_terms(hp, op, bo if hh else None, bo, mode)
    lb = bo.labels[1:]
    want = OrderedDict()
    if hh:
        for l, c in zip(lb, hc): want[('H', l)] = c
    if mode == 'all':
        for i, j in itertools.product(range(n), repeat=2): want[('S', lb[i], lb[j])] = oc[i][j]
    else:
        for l, c in zip(lb, oc if mode == 'diagonal' else oc[0]): want[('S', l)] = c
        if mode == 'diag_affine':
            for l, c in zip(lb, oc[1]): want[('A', l)] = c
    cx.check(list(T) == list(want), "term labels")
    cx.check_close([T[k] for k in want], list(want.values()), "term coefficients")
    cx.check(list(tb.labels) == list(bo.labels) and all(np.allclose(x, y) for x, y in zip(tb.elements, bo.elements)), "basis of the terms")
    h3, o3, bh, b3 = OT.lindblad_terms_to_projections(T, tb, mode)
    fo = [o3[k] for k in range(n)] if mode == 'diagonal' else [o3[i, k] for i in range(2 if mode == 'diag_affine' else n) for k in range(n)]
    cx.check_close(fo, [c for c, _ in flat], "projections of the terms")
    if hh: cx.check_close([h3[k] for k in range(n)], hc, "Hamiltonian projections of the terms")
    else: cx.check(h3 is None, "no Hamiltonian projections from terms")


@harness(params=[dict(mode=m, pm=p) for m in ('diagonal', 'diag_affine', 'all') for p in ('unconstrained', 'cptp', 'depol', 'reldepol') if m != 'all' or p in ('unconstrained', 'cptp')], kinds='fc',
         encodes=['lindblad_projections_to_paramvals', 'paramvals_to_lindblad_projections'], bounds='1 to 3 basis elements, all parameter values in [-1,1] (nonnegative for square-root parameters on the way back)', **COMMON)
def paramvals(cx):
    """coefficients are the documented functions of the parameters, and parameters are recovered from the coefficients"""
    mode, pm = cx.p['mode'], cx.p['pm']
    for n, nh in ((1, 2), (2, 0), (3, 3)):
        t = '%d' % n
        one = pm in ('depol', 'reldepol')
        sq = pm in ('cptp', 'depol')
        ham = cx.reals('h' + t, nh)
        if mode == 'all':
            par = cx.reals('p' + t, n * n)
        else:
            par = cx.reals('p' + t, 1 if one else n, 0.0 if sq else -1.0, 1.0)
            for x in (par if sq else []):
                cx.assume(x >= 0.01)
            if mode == 'diag_affine': aff = cx.reals('a' + t, n); par = list(par) + list(aff)
        v = cx.array(list(ham) + list(par), (nh + len(par),), 'f')
        hc, oc = OT.paramvals_to_lindblad_projections(v, nh + 1 if nh else 0, n + 1, pm, mode)
        if nh: cx.check_close([hc[i] for i in range(nh)], ham, "Hamiltonian coefficients")
        else: cx.check(hc is None, "no Hamiltonian coefficients")
        if mode == 'all':
            P = [par[i * n:(i + 1) * n] for i in range(n)]
            cx.check_shape(oc, (n, n), "coefficients")
            got = [[oc[i, j] for j in range(n)] for i in range(n)]
            if pm == 'cptp':
                L = [[(P[i][j] + 1j * P[j][i] if j < i else P[i][i] + 0j if i == j else 0j) for j in range(n)] for i in range(n)]
                cx.check_close(sum(got, []), sum(mm(L, dag(L)), []), "coefficient matrix is L times its adjoint")
                x = [cx.real('x%s%d' % (t, i)) + 1j * cx.real('y%s%d' % (t, i)) for i in range(n)]
            else:
                cx.check_close(sum(got, []), [(P[i][j] + 1j * P[j][i] if j < i else P[j][i] - 1j * P[i][j] if j > i else P[i][i]) for i in range(n) for j in range(n)],
                               "coefficient matrix holds the parameters")
            cx.check_close(sum(got, []), sum(dag(got), []), "Hermitian coefficient matrix")
        else:
            dp = [par[0]] * n if one else list(par[:n])
            dp = [x * x for x in dp] if sq else dp
            row = [oc[i] for i in range(n)] if mode == 'diagonal' else [oc[0, i] for i in range(n)]
            cx.check_close(row, dp, "stochastic coefficients")
            if mode == 'diag_affine': cx.check_close([oc[1, i] for i in range(n)], aff, "affine coefficients")
        if not (mode == 'all' and pm == 'cptp'):
            for tr in (False, True):
                back = OT.lindblad_projections_to_paramvals(hc, oc, pm, mode, tr)
                cx.check_shape(back, (nh + len(par),), "parameters of the coefficients")
                cx.check_close([back[i] for i in range(nh + len(par))], list(ham) + list(par), "parameters of the coefficients", tol=1e-6)


def mk(dims, ham, oth, nm, pm, sparse_=False, evo='densitymx', typ='pp', vals=None, basis='pp'):
    L = OrderedDict()
    k = 1
    for l in ham: L[('H', l)] = 0.01 * k; k += 1
    if nm == 'all':
        n = len(oth)
        A = (np.arange(n * n).reshape(n, n) + 1) * .01 + 1j * np.eye(n)[::-1] * .003
        A = A.dot(A.conj().T) + np.eye(n) * .01
        for i, a in enumerate(oth):
            for j, c in enumerate(oth): L[('S', a, c)] = A[i, j]
    else:
        for l in oth: L[('S', l)] = 0.02 * (k if 'dep' not in pm else 2); k += 1
        if nm == 'diag_affine':
            for l in oth: L[('A', l)] = 0.005 * k; k += 1
    return OP.LindbladErrorgen(dims, L, B.BuiltinBasis(basis, dims, sparse=sparse_), pm, nm, True, typ, evo), L


SUBS = [('XYZ', 'XYZ'), ('', 'XYZ'), ('X', 'ZX'), ('ZY', ''), ('YX', 'Y')]
MODES = [(m, p) for m in ('diagonal', 'diag_affine', 'all') for p in ('unconstrained', 'cptp', 'depol', 'reldepol') if m != 'all' or p in ('unconstrained', 'cptp')]
ENC = ['LindbladErrorgen.__init__', 'LindbladErrorgen._init_generators', 'LindbladErrorgen._update_rep', 'LindbladErrorgen.from_vector', 'LindbladErrorgen.todense', 'LindbladErrorgen.deriv_wrt_params',
       'LindbladErrorgen.hessian_wrt_params', 'LindbladErrorgen._dOdp', 'LindbladErrorgen._dHdp', 'LindbladErrorgen._d2Odp2', 'LindbladErrorgen.get_coeffs', 'LindbladErrorgen.onenorm_upperbound']


def coeffs_of(ham, oth, nm, pm, v):
    """(term -> coefficient) of the parameter values"""
    out = OrderedDict()
    nh, n = len(ham), len(oth)
    for l, x in zip(ham, v): out[('H', l)] = x
    p = v[nh:]
    if not n: return out
    if nm == 'all':
        P = [p[i * n:(i + 1) * n] for i in range(n)]
        if pm == 'cptp':
            L = [[(P[i][j] + 1j * P[j][i] if j < i else P[i][i] + 0j if i == j else 0j) for j in range(n)] for i in range(n)]
            C = mm(L, dag(L))
        else:
            C = [[(P[i][j] + 1j * P[j][i] if j < i else P[j][i] - 1j * P[i][j] if j > i else P[i][i]) for j in range(n)] for i in range(n)]
        for i, a in enumerate(oth):
            for j, b in enumerate(oth): out[('S', a, b)] = C[i][j]
        return out
    one = pm in ('depol', 'reldepol')
    k = 1 if one else n
    s = [p[0]] * n if one else p[:n]
    if pm in ('cptp', 'depol'): s = [x * x for x in s]
    for l, x in zip(oth, s): out[('S', l)] = x
    if nm == 'diag_affine':
        for l, x in zip(oth, p[k:]): out[('A', l)] = x
    return out


def gen_of(key, typ, d2, basis='pp'):
    b = B.BuiltinBasis(basis, d2)
    e = {l: [[complex(x) for x in r] for r in np.asarray(m)] for l, m in zip(b.labels, b.elements)}
    d = int(round(d2**.5))
    if key[0] == 'H': g = ref_ham(e[key[1]], d)
    elif key[0] == 'A': g = ref_affine(e[key[1]], d)
    else: g = ref_nonham(e[key[1]], e[key[-1]], d)
    T = np.asarray(B.BuiltinBasis(typ, d2).get_to_std())
    return np.linalg.inv(T).dot(np.array(g)).dot(T)


def num_par(ham, oth, nm, pm):
    n = len(oth)
    if not n: return len(ham)
    if nm == 'all': return len(ham) + n * n
    return len(ham) + (1 if pm in ('depol', 'reldepol') else n) + (n if nm == 'diag_affine' else 0)


@harness(params=[dict(nm=m, pm=p, s=i) for m, p in MODES for i in range(len(SUBS)) if (i != 3 or m == 'diagonal')], kinds='fc', encodes=ENC,
         bounds='one qubit; all parameter values in [-1,1]; five choices of Hamiltonian and other elements; every parameterization', **COMMON)
def errorgen(cx):
    """the generator is the sum of its terms; derivatives, coefficients, 1-norm bound, sparse and dense representations agree"""
    nm, pm = cx.p['nm'], cx.p['pm']
    ham, oth = [list(x) for x in SUBS[cx.p['s']]]
    eg, L0 = mk(4, ham, oth, nm, pm)
    N = num_par(ham, oth, nm, pm)
    cx.check(eg.num_params() == N, "number of parameters")
    if not (nm == 'all' and pm == 'cptp'):
        c0 = eg.get_coeffs()
        cx.check(set(c0) == set(L0), "labels of the terms")
        cx.check_close([c0[k] for k in L0], [L0[k] for k in L0], "coefficients given to the constructor")

    def expect(v, which=None):
        C = coeffs_of(ham, oth, nm, pm, v)
        G = {k: gen_of(k, 'pp', 4) for k in C}
        return [sum(C[k] * G[k][i, j] for k in C) for i in range(4) for j in range(4)], C

    def at(v):
        eg.from_vector(cx.array(list(v), (N,), 'f'))
        m = eg.todense()
        return [m[i, j] + 0 for i in range(4) for j in range(4)]
    v = cx.reals('v', N)
    want, C = expect(v)
    cx.check_close(at(v), want, "generator of the parameters")
    cx.check_close([eg.to_vector()[i] for i in range(N)], v, "parameters")
    cf, bs = eg.get_coeffs(return_basis=True)
    cx.check(set(cf) == set(C), "labels of the coefficients")
    cx.check_close([cf[k] for k in C], list(C.values()), "coefficients of the parameters")
    D = eg.deriv_wrt_params()
    H = eg.hessian_wrt_params()
    cx.check_shape(D, (16, N), "derivative"); cx.check_shape(H, (16, N, N), "second derivative")
    # the generator is a quadratic polynomial: derivatives are exact differences
    h = 0.5
    E = {}
    for i in range(N):
        up = [x + (h if k == i else 0) for k, x in enumerate(v)]; dn = [x - (h if k == i else 0) for k, x in enumerate(v)]
        p, m = expect(up)[0], expect(dn)[0]
        cx.check_close([D[k, i] for k in range(16)], [(a - b) / (2 * h) for a, b in zip(p, m)], "derivative in parameter %d" % i)
        for j in range(i + 1):
            def sh(a, b): return expect([x + (a if k == i else 0) + (b if k == j else 0) for k, x in enumerate(v)])[0]
            q = [(a - b - c + e) / (4 * h * h) for a, b, c, e in zip(sh(h, h), sh(h, -h), sh(-h, h), sh(-h, -h))]
            cx.check_close([H[k, i, j] for k in range(16)] + [H[k, j, i] for k in range(16)], q + q, "second derivative in parameters %d,%d" % (i, j))
    if N > 1:
        f = [N - 1, 0]
        D2, H2 = eg.deriv_wrt_params(f), eg.hessian_wrt_params([0], f)
        cx.check_close([D2[k, i] for k in range(16) for i in range(2)], [D[k, i] for k in range(16) for i in f], "filtered derivative")
        cx.check_close([H2[k, 0, i] for k in range(16) for i in range(2)], [H[k, 0, i] for k in range(16) for i in f], "filtered second derivative")
    # 1-norm bound: the sum of the 1-norms of the scaled generators
    ub = eg.onenorm_upperbound()
    nrm = {k: float(np.abs(gen_of(k, 'pp', 4)).sum(axis=0).max()) for k in C}
    if nm != 'all':
        cx.check_close(ub, sum(abs(C[k]) * nrm[k] for k in C), "bound on the 1-norm")


def build_sparse():
    """sparse error generators are built before the modules are instrumented (scipy's sparse matrices cannot hold symbols)"""
    out = {}
    for (m, p), i in itertools.product(MODES, range(len(SUBS))):
        try:
            out[m, p, i] = mk(4, list(SUBS[i][0]), list(SUBS[i][1]), m, p, sparse_=True)[0]
        except Exception as e:
            out[m, p, i] = e
    return out


SPARSE = build_sparse()


class SparseRep:
    def __init__(self, rep, data):
        self.data, self.indices, self.indptr, self.dim = data, rep.indices, rep.indptr, rep.dim


@harness(params=[dict(nm=m, pm=p, s=i) for m, p in MODES for i in range(len(SUBS)) if (i != 3 or m == 'diagonal')], kinds='fc',
         encodes=['LindbladErrorgen._update_rep', 'csr_sum_flat', 'LindbladErrorgen.onenorm_upperbound', 'get_csr_sum_flat_indices'],
         bounds='one qubit; all parameter values in [-1,1]; the sparsity structure is built concretely', **COMMON)
def sparse_errorgen(cx):
    """a sparse error generator has the value and the 1-norm bound of the sum of its terms"""
    nm, pm = cx.p['nm'], cx.p['pm']
    ham, oth = [list(x) for x in SUBS[cx.p['s']]]
    eg = SPARSE[nm, pm, cx.p['s']]
    cx.check(not isinstance(eg, Exception), "sparse error generator can be built (%s)" % (eg,) if isinstance(eg, Exception) else '')
    eg = copy.copy(eg)
    N = num_par(ham, oth, nm, pm)
    nz = len(eg._rep.data)
    eg._rep = SparseRep(eg._rep, cx.array([0.] * nz, (nz,), 'f'))
    if eg.Lmx is not None: eg.Lmx = cx.array([0j] * len(oth)**2, (len(oth), len(oth)), 'c')
    eg._data_scratch = cx.array([0j] * nz, (nz,), 'c')
    v = cx.reals('v', N)
    eg.from_vector(cx.array(list(v), (N,), 'f'))
    C = coeffs_of(ham, oth, nm, pm, v)
    G = {k: gen_of(k, 'pp', 4) for k in C}
    got = [[0.] * 4 for _ in range(4)]
    for r in range(4):
        for q in range(eg._rep.indptr[r], eg._rep.indptr[r + 1]):
            got[r][eg._rep.indices[q]] = got[r][eg._rep.indices[q]] + eg._rep.data[q]
    cx.check_close(sum(got, []), [sum(C[k] * G[k][i, j] for k in C) for i in range(4) for j in range(4)], "sparse generator")
    if nm != 'all':
        cx.check_close(eg.onenorm_upperbound(), sum(abs(C[k]) * float(np.abs(G[k]).sum(axis=0).max()) for k in C), "bound of the sparse generator")


@harness(params=[dict(nm=m, pm=p, act=a) for m, p in MODES for a in ('update', 'add', 'reset') if not (m == 'all' and p == 'cptp')], kinds='fc',
         encodes=['LindbladErrorgen.set_coeffs', 'LindbladErrorgen.get_coeffs', 'LindbladErrorgen.set_error_rates', 'LindbladErrorgen.get_error_rates'],
         bounds='one qubit; symbolic coefficients in [0.01,1] (stochastic) or [-1,1]', **COMMON)
def set_coeffs(cx):
    """setting, adding and resetting coefficients change exactly the named terms"""
    nm, pm, act = cx.p['nm'], cx.p['pm'], cx.p['act']
    ham, oth = list('XZ'), list('XYZ')
    one = pm in ('depol', 'reldepol')
    eg, L0 = mk(4, ham, oth, nm, pm)
    N = eg.num_params()
    pv = cx.reals('v', N)
    if pm in ('cptp', 'depol'):
        for x in pv[len(ham):]: cx.assume(x >= .01)
    eg.from_vector(cx.array(list(pv), (N,), 'f'))
    C = coeffs_of(ham, oth, nm, pm, pv)
    new = OrderedDict()
    new[('H', 'Z')] = cx.real('nz')
    if nm == 'all':
        new[('S', 'Y', 'Y')] = cx.real('syy')
        z = cx.real('zr') + 1j * cx.real('zi')
        new[('S', 'Z', 'X')] = z; new[('S', 'X', 'Z')] = z.conjugate()
    else:
        s = cx.real('s'); cx.assume(s >= .01)
        for l in (oth if one else ['Z']): new[('S', l)] = s
        if nm == 'diag_affine': new[('A', 'Y')] = cx.real('ay')
    eg.set_coeffs(new, act)
    want = OrderedDict((k, 0. if act == 'reset' else x) for k, x in C.items())
    for k, x in new.items(): want[k] = want[k] + x if act == 'add' else x
    got = eg.get_coeffs()
    cx.check(list(got) == list(want), "labels")
    cx.check_close([got[k] for k in want], list(want.values()), "coefficients after %s" % act, tol=1e-6)
    m = eg.todense()
    G = {k: gen_of(k, 'pp', 4) for k in want}
    cx.check_close([m[i, j] for i in range(4) for j in range(4)], [sum(want[k] * G[k][i, j] for k in want) for i in range(4) for j in range(4)], "generator after %s" % act, tol=1e-6)
    cx.check_raises(lambda: eg.set_coeffs({('H', 'Y'): 0.1}), "unknown term", KeyError)


@harness(params=[dict(nm=m, pm=p, s=i) for m, p in MODES for i in (0, 1, 2)], kinds='fc',
         encodes=['LindbladErrorgen._init_terms', 'LindbladErrorgen.get_taylor_order_terms', 'RankOnePolyOpTerm.simple_init', 'to_unitary'],
         bounds='one qubit; all parameter values in [-1,1]', **COMMON)
def terms(cx):
    """the rank-one terms of the term-based representation add up to the generator"""
    nm, pm = cx.p['nm'], cx.p['pm']
    ham, oth = [list(x) for x in SUBS[cx.p['s']]]
    eg, _ = mk(4, ham, oth, nm, pm, evo='svterm')
    N = num_par(ham, oth, nm, pm)
    v = cx.reals('v', N)
    C = coeffs_of(ham, oth, nm, pm, v)
    G = {k: gen_of(k, 'std', 4) for k in C}
    want = [[sum(C[k] * G[k][i, j] for k in C) for j in range(4)] for i in range(4)]
    tot = [[0j] * 4 for _ in range(4)]
    for t in eg.get_taylor_order_terms(0):
        c = 0j
        for mon, x in t.coeff.coeffs.items():
            p = x
            for q in mon: p = p * v[q]
            c = c + p
        def mat(ops):
            m = np.eye(2, dtype=complex)
            for o in ops: m = np.array([[complex(o.base[i, j]) for j in range(2)] for i in range(2)]).dot(m)
            return m
        A, Bm = mat(t._rep.pre_ops), mat(t._rep.post_ops)
        S = np.kron(A, Bm.conj())
        for i in range(4):
            for j in range(4):
                if S[i, j] != 0: tot[i][j] = tot[i][j] + c * complex(S[i, j])
    cx.check_close(sum(tot, []), sum(want, []), "sum of the rank-one terms")
    eg.from_vector(np.array([(i + 1) / 20. for i in range(N)]))
    dn, _ = mk(4, ham, oth, nm, pm)
    dn.from_vector(np.array([(i + 1) / 20. for i in range(N)]))
    cx.check_close(list(np.asarray(eg.todense()).ravel()), list(np.asarray(dn.todense()).ravel()), "dense matrix of a term-based generator")
