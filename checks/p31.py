"""P31: the numerical helper functions of tools/matrixtools meet their algebraic definition."""
import itertools
import types
import numpy as np
from symex.harness import harness, land, lor, lnot, ite, RANGE
from pygsti.tools import matrixtools as mt

MODS = [('pygsti.tools.matrixtools', RANGE)]
META = {'assumptions': ['eigenvalue, Schur and linear-assignment library calls are replaced by stand-ins returning an arbitrary symbolic result that satisfies their documented meaning',
                        'sparse matrices are stand-ins with concrete structure (chosen symbolically) and symbolic values',
                        'outside: matrix logarithms, null spaces, expm preparation (norm estimates), text formatting, random sampling (norm1to1)']}


class Csr(object):
    """stand-in for scipy.sparse.csr_matrix: structure concrete, values symbolic"""

    def __init__(self, data, indices, indptr, shape):
        self.data, self.indices, self.indptr, self.shape = data, np.array(indices, int), np.array(indptr, int), shape
        self.nnz = len(indices)

    def dense(self):
        d = {}
        for r in range(self.shape[0]):
            for k in range(self.indptr[r], self.indptr[r + 1]):
                d[r, int(self.indices[k])] = self.data[k]
        return d

    def nonzero(self):
        rows = [r for r in range(self.shape[0]) for k in range(self.indptr[r], self.indptr[r + 1])]
        keep = [k for k in range(self.nnz) if bool(self.data[k] != 0)]
        return np.array([rows[k] for k in keep], int), np.array([int(self.indices[k]) for k in keep], int)


def structure(cx, nm, n, cols):
    """one column list per row"""
    indices, indptr = [], [0]
    for r in range(n):
        c = cols[cx.choice('%s%d' % (nm, r), range(len(cols)))]
        indices += list(c)
        indptr.append(len(indices))
    return indices, indptr


COLS = [(), (0,), (1,), (0, 1), (1, 0)]


@harness(params=[dict(n=2, m=1), dict(n=2, m=2)], thorough_params=[dict(n=2, m=1), dict(n=2, m=2), dict(n=1, m=3)], modules=MODS, logic='QF_FD', kinds='ifb',
         encodes=['matrixtools.get_csr_sum_indices', 'matrixtools.csr_sum', 'matrixtools.get_csr_sum_flat_indices', 'matrixtools.csr_sum_flat'],
         bounds='sums of up to two 2x2 sparse matrices (thorough: three 1x1) of every sparsity structure and column order, integer entries and coefficients in -2..3')
def csr_sums(cx):
    n, m = cx.p['n'], cx.p['m']
    cols = [c for c in COLS if all(x < n for x in c)]
    ms = []
    for k in range(m):
        ind, ptr = structure(cx, 's%d_' % k, n, cols)
        ms.append(Csr(cx.array([cx.bv('d%d_%d' % (k, i), -2, 3) for i in range(len(ind))], (len(ind),), 'i'), ind, ptr, (n, n)))
    co = [cx.bv('c%d' % k, -2, 3) for k in range(m)]
    arrs, indptr, indices, N = mt.get_csr_sum_indices(ms)
    cx.check(N == n, 'dimension')
    cx.check(len(indptr) == n + 1 and indptr[0] == 0 and indptr[-1] == len(indices), 'row pointers')
    where = {(r, int(indices[k])): k for r in range(n) for k in range(indptr[r], indptr[r + 1])}
    cx.check(len(where) == len(indices), 'an entry of the sum appears twice')
    cx.check(set(where) == set(ix for mx in ms for ix in mx.dense()), 'structure of the sum')
    want = {}
    for c, mx in zip(co, ms):
        for ix, v in mx.dense().items():
            want[ix] = want.get(ix, 0) + c * v
    start = [cx.bv('z%d' % i, -2, 3) for i in range(len(indices))]
    data = cx.array(list(start), (len(start),), 'i')
    mt.csr_sum(data, co, ms, arrs)
    for ix, k in where.items():
        cx.check(data[k] == start[k] + want[ix], 'csr_sum')
    flat, fdata, nptr, p2, i2, N2 = mt.get_csr_sum_flat_indices(ms)
    cx.check([int(x) for x in p2] == [int(x) for x in indptr] and [int(x) for x in i2] == [int(x) for x in indices] and N2 == n, 'flat structure')
    data2 = cx.array(list(start), (len(start),), 'i')
    mt.csr_sum_flat(data2, co, flat, fdata, nptr)
    for ix, k in where.items():
        cx.check(data2[k] == start[k] + want[ix], 'csr_sum_flat')


@harness(params=[dict(n=1), dict(n=2)], modules=MODS, logic='QF_FD', kinds='ifb', encodes=['matrixtools.sparse_equal'],
         bounds='pairs of sparse matrices of up to 2 rows and 2 columns with explicit zeros and any column order (1 row: every structure, entries in -1..1; 2 rows: at least one stored entry per row, sorted, entries 0..1)')
def sparse_equality(cx):
    n = cx.p['n']
    ms = []
    for k in range(2):
        ind, ptr = structure(cx, 's%d_' % k, n, COLS if n == 1 else COLS[1:4])
        ms.append(Csr(cx.array([cx.bv('d%d_%d' % (k, i), -1 if n == 1 else 0, 1) for i in range(len(ind))], (len(ind),), 'i'), ind, ptr, (n, 2)))
    a, b = ms[0].dense(), ms[1].dense()
    same = land(*[a.get((i, j), 0) == b.get((i, j), 0) for i in range(n) for j in range(2)])
    r = mt.sparse_equal(ms[0], ms[1])
    cx.check(same if bool(r) else lnot(same), 'sparse_equal is not equality of the matrices')
    cx.check(not mt.sparse_equal(ms[0], types.SimpleNamespace(shape=(n + 1, 2))), 'different shapes compare equal')


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.trace', 'matrixtools.frobeniusnorm', 'matrixtools.frobeniusnorm2', 'matrixtools.vec', 'matrixtools.unvec', 'matrixtools.column_basis_vector',
                                            'matrixtools.safedot', 'matrixtools.safereal', 'matrixtools.safeimag', 'matrixtools.safenorm', 'matrixtools.safe_onenorm', 'matrixtools.complex_compare'],
         params=[dict(n=1), dict(n=2), dict(n=3)], bounds='dense matrices up to 3x3, entries in [-2,2] (real and imaginary parts)')
def dense(cx):
    n = cx.p['n']
    R, S = cx.realmx('r', n, n, lo=-2, hi=2), cx.realmx('s', n, n, lo=-2, hi=2)
    C = cx.cplxmx('c', n, n, lo=-2, hi=2)
    ix = [(i, j) for i in range(n) for j in range(n)]
    cx.check_close(mt.trace(R), sum(R[i, i] for i in range(n)), 'trace')
    cx.check_close(mt.trace(C), sum(C[i, i] for i in range(n)), 'complex trace')
    f2 = sum(R[i] * R[i] for i in ix)
    cx.check_close(mt.frobeniusnorm2(R), f2, 'frobeniusnorm2')
    f = mt.frobeniusnorm(R)
    cx.check(f >= 0, 'norm sign')
    cx.check_close(f * f, f2, 'frobeniusnorm')
    v = mt.vec(R)
    cx.check(len(v) == n * n, 'vec length')
    for i, j in ix:
        cx.check_close(v[j * n + i], R[i, j], 'vec stacks columns')
    u = mt.unvec(v)
    cx.check(tuple(u.shape) == (n, n), 'unvec shape')
    for i in ix:
        cx.check_close(u[i], R[i], 'unvec inverts vec')
    e = mt.column_basis_vector(n - 1, n)
    cx.check([float(x) for x in e.flat] == [0.] * (n - 1) + [1.] and e.shape == (n, 1), 'basis vector')
    P = mt.safedot(R, S)
    re, im = mt.safereal(C), mt.safeimag(C)
    for i, j in ix:
        cx.check_close(P[i, j], sum(R[i, k] * S[k, j] for k in range(n)), 'safedot')
        cx.check_close(re[i, j], C[i, j].real, 'safereal')
        cx.check_close(im[i, j], C[i, j].imag, 'safeimag')
    nr, ni, nn = mt.safenorm(C, 'real'), mt.safenorm(C, 'imag'), mt.safenorm(R)
    cx.check_close(nr * nr, sum(C[i].real * C[i].real for i in ix), 'safenorm real part')
    cx.check_close(ni * ni, sum(C[i].imag * C[i].imag for i in ix), 'safenorm imag part')
    cx.check_close(nn * nn, f2, 'safenorm')
    cx.check(land(nr >= 0, ni >= 0, nn >= 0), 'norm sign')
    a, b = C[0, 0], C[n - 1, n - 1]
    if n > 1:
        k = mt.complex_compare(a, b)
        lt = lor(a.real < b.real, land(a.real == b.real, a.imag < b.imag))
        gt = lor(a.real > b.real, land(a.real == b.real, a.imag > b.imag))
        cx.check(lt if k == -1 else (gt if k == 1 else land(lnot(lt), lnot(gt))), 'complex_compare is not the lexicographic order')


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.safe_onenorm', 'matrixtools.is_hermitian'], params=[dict(n=1), dict(n=2), dict(n=3)],
         bounds='dense matrices up to 3x3 (Hermitian test: 2x2 complex, 3x3 real), entries in [-2,2], deviations outside the tolerance 1e-9 by a factor 2')
def dense_fork(cx):
    n = cx.p['n']
    if n < 3:
        R = cx.realmx('r', n, n, lo=-2, hi=2)
        o = mt.safe_onenorm(R)
        cols = [sum(ite(R[i, j] > 0, R[i, j], -R[i, j]) for i in range(n)) for j in range(n)]
        cx.check(land(*[o >= c - 1e-9 for c in cols]), 'one-norm below a column sum')
        cx.check(lor(*[o <= c + 1e-9 for c in cols]), 'one-norm is not a column sum')
    if n == 3:
        # one entry deviates from being Hermitian by d
        i, j = [(0, 1), (2, 0), (1, 2), (2, 1)][cx.choice('where', range(4))]
        h = {(a, b): cx.real('h%d%d' % (a, b), -2, 2) for a in range(3) for b in range(a, 3)}
        H = [[h[min(a, b), max(a, b)] for b in range(3)] for a in range(3)]
        d = cx.real('d', -1, 1)
        H[i][j] = H[i][j] + d
        h = mt.is_hermitian(cx.array([x for r in H for x in r], (3, 3), 'f'))
    else:
        a, b, c, x = [cx.real('h%d' % k, -2, 2) for k in range(4)]
        d, e = cx.real('d', -1, 1), cx.real('e', -1, 1)
        which = cx.choice('which', range(3 if n == 2 else 1))
        one, oth = (d, 0) if which == 0 else ((0, d) if which == 1 else (0, 0))
        D = [cx.array([a, c], (2,), 'f'), cx.array([b, b], (2,), 'f')]
        if n == 1:
            m = cx.array([a], (1, 1), 'f') + 1j * cx.array([d], (1, 1), 'f')
        else:
            re = cx.array([a, b, b + one, c], (2, 2), 'f')
            im = cx.array([d if which == 2 else 0., x, -x + oth, 0.], (2, 2), 'f')
            m = re + 1j * im
        h = mt.is_hermitian(m)
    if bool(h):
        cx.check(land(d <= 2e-9, d >= -2e-9), 'a non-Hermitian matrix is reported Hermitian')
    else:
        cx.check(lor(d >= 1e-10, d <= -1e-10), 'a Hermitian matrix is reported non-Hermitian')


@harness(modules=MODS, logic='QF_FD', kinds='', encodes=['matrixtools.prime_factors'], params=[dict(lo=1, hi=20), dict(lo=21, hi=40)], thorough_params=[dict(lo=1, hi=30), dict(lo=31, hi=60), dict(lo=61, hi=100), dict(lo=101, hi=130)],
         bounds='every n up to 40 (thorough 130)')
def primes(cx):
    n = cx.bv('n', cx.p['lo'], cx.p['hi'])
    f = mt.prime_factors(n)
    p = 1
    for x in f:
        p = p * x
        cx.check(land(*[lor(x == q, x % q != 0) for q in (2, 3, 5, 7, 11)]), 'factor is not prime')
        cx.check(x > 1, 'trivial factor')
    cx.check(p == n, 'product of the factors')


@harness(modules=MODS, kinds='fc', encodes=['matrixtools._custom_expm_multiply_simple_core', 'matrixtools.expm_multiply_fast'], params=[dict(m=m, s=s) for m, s in ((1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (0, 1))],
         bounds='2x2 generators and vectors with entries in [-1,1], Taylor degree up to 4, up to 2 scaling steps, any eta')
def expm_core(cx):
    m, s = cx.p['m'], cx.p['s']
    A = cx.realmx('a', 2, 2, lo=-1, hi=1)
    if s == 2 and m == 2:
        A[0, 1], A[1, 0] = .5, -.25
    v = cx.array(cx.reals('v', 2, -1, 1), (2,), 'f')
    eta = cx.real('eta', -2, 2)
    v0 = list(v)
    r = mt.expm_multiply_fast((A, 0., m, s, eta), v)
    cx.check(land(*[x == y for x, y in zip(v, v0)]), 'the argument was changed')
    w = v0
    for _ in range(s):
        t, tot = w, w
        for k in range(1, m + 1):
            t = [(A[i, 0] * t[0] + A[i, 1] * t[1]) / (s * k) for i in range(2)]
            tot = [x + y for x, y in zip(tot, t)]
        w = [eta * x for x in tot]
    for i in range(2):
        cx.check_close(r[i], w[i], 'not the truncated Taylor series of exp(A/s) to the power s')


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.project_onto_kite', 'matrixtools.project_onto_antikite', 'matrixtools.get_kite'],
         params=[dict(kite=k) for k in ((1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1), (3,), (1, 1, 2), (2, 2), (1, 2, 1))], bounds='every matrix of dimension up to 4 and the listed block structures; eigenvalues from a grid of well separated values')
def kite(cx):
    k = cx.p['kite']
    n = sum(k)
    M = cx.realmx('m', n, n, lo=-2, hi=2)
    M0 = list(M.reshape(-1))
    blk = [b for b, l in enumerate(k) for _ in range(l)]
    K, A = mt.project_onto_kite(M, k), mt.project_onto_antikite(M, k)
    cx.check(land(*[x == y for x, y in zip(M.reshape(-1), M0)]), 'the argument was changed')
    for i in range(n):
        for j in range(n):
            same = blk[i] == blk[j]
            cx.check_close(K[i, j], M[i, j] if same else 0, 'kite projection')
            cx.check_close(A[i, j], 0 if same else M[i, j], 'antikite projection')
    cx.check_raises(lambda: mt.project_onto_kite(M, list(k) + [1]), 'wrong kite', AssertionError)
    ev = []
    for b, l in enumerate(k):
        x = cx.real('e%d' % b, b, b + .5)
        ev += [x] * l
    cx.check([int(x) for x in mt.get_kite(cx.array(ev, (n,), 'f'))] == list(k), 'get_kite')


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.to_unitary'], bounds='scaled 1x1 and 2x2 unitaries with arbitrary scale in (0.1, 2)', params=[dict(n=1), dict(n=2)])
def unitary(cx):
    if cx.p['n'] == 1:
        a = cx.real('a', .1, 2)
        U = cx.array([a], (1, 1), 'f')
        n2 = a * a
    else:
        a, b = cx.real('a', .1, 2), cx.real('b', -1, 1)
        U = cx.array([a, -b, b, a], (2, 2), 'f')
        n2 = a * a + b * b
    s, V = mt.to_unitary(U)
    cx.check_close(s * s, n2, 'scale')
    cx.check(s >= 0, 'scale sign')
    for x, y in zip(V.reshape(-1), U.reshape(-1)):
        cx.check_close(x * s, y, 'scale times unitary is not the given matrix')


class Swap(object):
    """replace library functions of matrixtools for a while"""

    def __init__(self, **kw): self.kw = kw

    def __enter__(self):
        self.old = {k: getattr(mt, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(mt, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(mt, k, v)


def assignment(cx, cost_of):
    """linear_sum_assignment: an arbitrary permutation of least total weight"""
    cnt = [0]

    def lsa(W):
        n = W.shape[0]
        perms = list(itertools.permutations(range(n)))
        p = perms[cx.choice('perm%d' % cnt[0], range(len(perms)))]
        cnt[0] += 1
        tot = lambda q: sum(W[i, q[i]] for i in range(n))
        for q in perms:
            if q != p:
                cx.assume(tot(p) <= tot(q))
        cost_of.append((p, W))
        return np.arange(n), np.array(p, int)
    return types.SimpleNamespace(linear_sum_assignment=lsa)


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.minweight_match'], params=[dict(n=n, mode=m) for n in (1, 2, 3) for m in ('default', 'metric', 'index')],
         bounds='up to 3 real values in [-2,2] each; default, given and index-based metric')
def match(cx):
    n, mode = cx.p['n'], cx.p['mode']
    a, b = cx.reals('a', n, -2, 2), cx.reals('b', n, -2, 2)
    w = lambda i, j: ite(a[i] > b[j], a[i] - b[j], b[j] - a[i]) if mode == 'default' else (a[i] + 2 * b[j] * (b[j] if n < 3 else 1) + 7)
    fn = None if mode == 'default' else ((lambda i, j: w(i, j)) if mode == 'index' else (lambda x, y: x + 2 * y * (y if n < 3 else 1) + 7))
    with Swap(_spo=assignment(cx, [])):
        ws, pairs = mt.minweight_match(cx.array(a, (n,), 'f'), cx.array(b, (n,), 'f'), fn, True, mode == 'index')
    pairs = [(int(p), int(q)) for p, q in pairs]
    cx.check(sorted(p for p, _ in pairs) == list(range(n)) and sorted(q for _, q in pairs) == list(range(n)), 'not a matching')
    for k, (p, q) in enumerate(pairs):
        cx.check_close(ws[k], w(p, q), 'weight of a pair')
    tot = sum(w(p, q) for p, q in pairs)
    cx.check(land(*[tot <= sum(w(i, q[i]) for i in range(n)) + 1e-9 for q in itertools.permutations(range(n))]), 'the matching is not of least weight')


LISTS = {'rr': 'rr', 'c': 'cC', 'rc': 'rcC', 'crC': 'crC', 'cCr': 'cCr', 'rrr': 'rrr'}


def spectrum(cx, nm, kind, box):
    out = []
    for i, ch in enumerate(kind):
        if ch == 'r':
            out.append((cx.real('%sr%d' % (nm, i), box * 2 * i, box * 2 * i + .5), 0.))
        elif ch == 'c':
            re, im = cx.real(nm + 're', -1, 1), cx.real(nm + 'im', .5, 2)
            out.append((re, im))
        else:
            out.append((re, -im))
    return out


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.minweight_match_realmxeigs', 'matrixtools.minweight_match'],
         params=[dict(a=a, b=b) for a, b in (('rr', 'rr'), ('cC', 'cC'), ('rcC', 'cCr'), ('crC', 'rcC'), ('cCr', 'crC'))], limit=200,
         bounds='spectra of real matrices with up to one conjugate pair and one real eigenvalue in any order')
def match_eigs(cx):
    A, B = spectrum(cx, 'a', cx.p['a'], 1), spectrum(cx, 'b', cx.p['b'], 1)
    n = len(A)
    cplx = lambda L: cx.array([x for x, _ in L], (n,), 'f') + 1j * cx.array([y for _, y in L], (n,), 'f')
    with Swap(_spo=assignment(cx, [])):
        pairs = mt.minweight_match_realmxeigs(cplx(A), cplx(B), metricfn=lambda x, y: (x.real - y.real) * (x.real - y.real) + (x.imag - y.imag) * (x.imag - y.imag))
    pairs = {int(p): int(q) for p, q in pairs}
    cx.check(sorted(pairs) == list(range(n)) and sorted(pairs.values()) == list(range(n)), 'not a matching')
    ka, kb = cx.p['a'], cx.p['b']
    if 'c' in ka:
        cx.check({kb[pairs[ka.index('c')]], kb[pairs[ka.index('C')]]} == {'c', 'C'}, 'a conjugate pair is not matched to a conjugate pair')


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.sorted_eig'], params=[dict(n=1), dict(n=2), dict(n=3)], bounds='up to 3 eigenvalues in [-1,1]+i[-1,1] and any eigenvectors')
def sorted_eigs(cx):
    n = cx.p['n']
    re, im = cx.reals('re', n, -1, 1), [cx.real('im%d' % i, -1, 1) for i in range(n)] if n < 3 else [0.] * n
    ev = cx.array(re, (n,), 'f') + 1j * cx.array(im, (n,), 'f')
    U = cx.realmx('u', n, n, lo=-1, hi=1)

    class NP(object):
        linalg = types.SimpleNamespace(eig=lambda m: (ev, U))
        def __getattr__(self, k): return getattr(np, k)
    with Swap(_np=NP()):
        e, V = mt.sorted_eig(None)
    for i in range(n - 1):
        cx.check(lor(e[i].real < e[i + 1].real, land(e[i].real == e[i + 1].real, e[i].imag <= e[i + 1].imag)), 'not sorted')
    # some permutation maps the given pairs to the returned ones
    cx.check(lor(*[land(*[land(e[i].real == re[p[i]], e[i].imag == im[p[i]], *[V[k, i] == U[k, p[i]] for k in range(n)]) for i in range(n)])
                   for p in itertools.permutations(range(n))]), 'eigenvalues and eigenvectors are not the given pairs')


@harness(modules=MODS, kinds='fc', encodes=['matrixtools.matrix_sign'], params=[dict(sg=s) for s in ((1,), (-1, 1), (1, 1), (1, -1), (1, 1, -1), (-1, 1, -1), (1, -1, -1))],
         bounds='upper-triangular Schur factors up to 3x3, any off-diagonal part in [-1,1], diagonal of the given signs and magnitude in [1,2] (3x3: fixed)')
def sign(cx):
    sg = cx.p['sg']
    n = len(sg)
    d = [s * (cx.real('d%d' % i, 1, 2) if n < 3 else 1. + .5 * i) for i, s in enumerate(sg)]
    T = [[0.] * n for _ in range(n)]
    for i in range(n):
        T[i][i] = d[i]
        for j in range(i + 1, n):
            T[i][j] = cx.real('t%d%d' % (i, j), -1, 1)
    Z = np.eye(n) if n != 2 else np.array([[.6, -.8], [.8, .6]])
    Ta = cx.array([x for r in T for x in r], (n, n), 'f') + 0j
    with Swap(_spl=types.SimpleNamespace(schur=lambda m, *a, **k: (Ta, Z))):
        U = mt.matrix_sign(np.zeros((n, n)))
    # work in the Schur frame
    U = [[sum(Z[a, i] * U[a, b] * Z[b, j] for a in range(n) for b in range(n)) for j in range(n)] for i in range(n)] if n == 2 else [[U[i, j] for j in range(n)] for i in range(n)]
    I = lambda x: getattr(x, 'imag', 0.)
    Rr = [[getattr(x, 'real', x) for x in r] for r in U]
    for i in range(n):
        for j in range(n):
            cx.check_close(I(U[i][j]), 0, 'imaginary part', tol=1e-6)
            cx.check_close(sum(Rr[i][k] * Rr[k][j] for k in range(n)), 1. if i == j else 0., 'the sign squares to one', tol=1e-6)
            cx.check_close(sum(Rr[i][k] * T[k][j] - T[i][k] * Rr[k][j] for k in range(n)), 0., 'the sign commutes with the matrix', tol=1e-6)
        cx.check_close(Rr[i][i], sg[i], 'sign of an eigenvalue', tol=1e-6)
