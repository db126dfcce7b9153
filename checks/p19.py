"""P19: GF(2) linear algebra (tools/matrixmod2)."""
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.tools import matrixmod2 as mtx

LOGIC = 'QF_FD'
MODS = ['pygsti.tools.matrixmod2']
META = {'assumptions': ['integer arrays modelled as unbounded integers', 'np.random replaced by arbitrary bits (bounded number of draws)']}


def det2(M, rows=None, cols=None):
    """reference: Leibniz determinant over GF(2)"""
    n = M.shape[0]
    rows = tuple(range(n)) if rows is None else rows
    cols = tuple(range(n)) if cols is None else cols
    if not rows:
        return 1
    t = 0
    for j, c in enumerate(cols):
        t = t + M[rows[0], c] * det2(M, rows[1:], cols[:j] + cols[j + 1:])
    return t % 2


def mul2(A, B):
    return [[_s([A[i, k] * B[k, j] for k in range(A.shape[1])]) % 2 for j in range(B.shape[1])] for i in range(A.shape[0])]


def _s(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


@harness(params=[{'n': 1}, {'n': 2}, {'n': 3}], thorough_params=[{'n': 4}], modules=MODS, kinds='ifb', logic=LOGIC, encodes=['matrixmod2.inv_mod2', 'matrixmod2.gaussian_elimination_mod2'],
         bounds='all invertible binary n x n matrices, n<=3 (4)')
def inverse(cx):
    n = cx.p['n']
    M = cx.bitmx('m', n, n)
    cx.assume(det2(M) == 1)
    M0 = M.copy()
    R = mtx.inv_mod2(M)
    cx.check_shape(R, (n, n), "inverse")
    for nm, P in (("inv*M", mul2(R, M)), ("M*inv", mul2(M, R))):
        for i in range(n):
            for j in range(n):
                cx.check(P[i][j] == (1 if i == j else 0), "inv_mod2: %s is not the identity" % nm)
    cx.check(land(*[lor(x == 0, x == 1) for x in R.flat]), "inverse entries not in {0,1}")
    cx.check(land(*[a == b for a, b in zip(M.flat, M0.flat)]), "argument modified")


@harness(params=[{'n': 1}, {'n': 2}, {'n': 3}], thorough_params=[{'n': 4}], modules=MODS, kinds='ifb', logic=LOGIC, encodes=['matrixmod2.Axb_mod2'],
         bounds='all invertible A and all b, n<=3 (4)')
def solve(cx):
    n = cx.p['n']
    A = cx.bitmx('a', n, n)
    b = cx.bitmx('b', n)
    cx.assume(det2(A) == 1)
    x = mtx.Axb_mod2(A, b)
    cx.check_shape(x, (n, 1), "Axb solution")
    for i in range(n):
        cx.check(_s([A[i, k] * x[k, 0] for k in range(n)]) % 2 == b[i], "Axb_mod2 does not solve Ax=b")


@harness(params=[{'m': m, 'n': n} for m in (1, 2, 3) for n in (1, 2, 3)], modules=MODS, kinds='ifb', logic=LOGIC, encodes=['matrixmod2.gaussian_elimination_mod2'],
         bounds='all m x n binary matrices, m,n<=3')
def elimination(cx):
    m, n = cx.p['m'], cx.p['n']
    A = cx.bitmx('a', m, n)
    A0 = A.copy()
    R = mtx.gaussian_elimination_mod2(A)
    cx.check_shape(R, (m, n), "row-reduced matrix")
    # same row space: every vector orthogonal to all rows of A is orthogonal to all rows of R and conversely
    v = cx.bits('v', n)
    oa = land(*[_s([A0[i, k] * v[k] for k in range(n)]) % 2 == 0 for i in range(m)])
    orr = land(*[_s([R[i, k] * v[k] for k in range(n)]) % 2 == 0 for i in range(m)])
    cx.check(limplies(oa, orr), "row reduction added to the row space")
    cx.check(limplies(orr, oa), "row reduction lost part of the row space")
    cx.check(land(*[a == b for a, b in zip(A.flat, A0.flat)]), "argument modified")


@harness(params=[{'n': 2}, {'n': 3}], modules=MODS, kinds='ifb', logic=LOGIC,
         encodes=['matrixmod2.dotmod2', 'matrixmod2.multidotmod2', 'matrixmod2.matrix_directsum', 'matrixmod2.diagonal_as_vec',
                  'matrixmod2.diagonal_as_matrix', 'matrixmod2.strictly_upper_triangle', 'matrixmod2.permute_top'],
         bounds='all binary matrices n<=3; integer entries 0..3 for the triangle/diagonal helpers')
def basics(cx):
    n = cx.p['n']
    A, B, C = cx.bitmx('a', n, n), cx.bitmx('b', n, n), cx.bitmx('c', n, n)
    D = mtx.dotmod2(A, B)
    R = mul2(A, B)
    for i in range(n):
        for j in range(n):
            cx.check(D[i, j] == R[i][j], "dotmod2 is not the product mod 2")
    E = mtx.multidotmod2([A, B, C])
    R2 = mul2(np.array(R, dtype=object), C)
    for i in range(n):
        for j in range(n):
            cx.check(E[i, j] == R2[i][j], "multidotmod2 is not the product mod 2")
    S = mtx.matrix_directsum(A, cx.bitmx('d', 2, 2))
    for i in range(n + 2):
        for j in range(n + 2):
            if i < n and j < n:
                cx.check(S[i, j] == A[i, j], "direct sum block")
            elif (i < n) != (j < n):
                cx.check(S[i, j] == 0, "direct sum off-diagonal block")
    M = cx.bvmx('m', (n, n), 0, 3)
    M0 = M.copy()
    v, dm, ut = mtx.diagonal_as_vec(M), mtx.diagonal_as_matrix(M), mtx.strictly_upper_triangle(M)
    for i in range(n):
        cx.check(v[i] == M0[i, i], "diagonal_as_vec")
        for j in range(n):
            cx.check(dm[i, j] == (M0[i, i] if i == j else 0), "diagonal_as_matrix")
            cx.check(ut[i, j] == (M0[i, j] if j > i else 0), "strictly_upper_triangle")
            cx.check(M[i, j] == M0[i, j], "argument modified")
    k = cx.choice('k', list(range(1, n)))
    PA, P = mtx.permute_top(A, k)
    perm = list(range(n))
    perm[0], perm[k] = k, 0
    for i in range(n):
        for j in range(n):
            cx.check(PA[i, j] == A[perm[i], perm[j]], "permute_top does not swap rows and columns 0 and i")


@harness(params=[{'n': 2}, {'n': 3}], thorough_params=[{'n': 4}], modules=MODS, kinds='ifb', logic=None, encodes=['matrixmod2.detmod2'],
         bounds='all binary n x n matrices, n<=3 (4) (float rounding of the LAPACK determinant outside the claim)')
def determinant(cx):
    n = cx.p['n']
    M = cx.bitmx('m', n, n)
    if cx.symbolic:
        M = [[int(x) for x in r] for r in M.tolist()]    # the determinant is a C routine: entries fork over their values
        M = np.array(M)
    d = mtx.detmod2(M)
    cx.check(int(round(float(d))) % 2 == det2(M), "detmod2 is not the determinant mod 2")


class _Rand(object):
    def __init__(self, cx, maxdraw):
        self.cx, self.k, self.maxdraw = cx, 0, maxdraw

    def randint(self, lo, hi=None, size=None):
        if hi is None:
            lo, hi = 0, lo
        self.k += 1
        if self.k > self.maxdraw:
            self.cx.assume(False)
        if size is None:
            return self.cx.choice('rs%d' % self.k, [0, 1])
        return self.cx.bitmx('r%d' % self.k, int(size))


def with_random(mod, cx, maxdraw):
    import contextlib

    @contextlib.contextmanager
    def c():
        old = mod._np
        r = _Rand(cx, maxdraw)

        class NP(object):
            def __getattr__(self, k):
                return r if k == 'random' else getattr(old, k)
        mod._np = NP()
        try:
            yield
        finally:
            mod._np = old
    return c()


@harness(params=[{'n': 2, 'd': 7}], thorough_params=[{'n': 3, 'd': 9}], limit=120, modules=MODS, kinds='ifb', logic=LOGIC, encodes=['matrixmod2.albert_factor', 'matrixmod2.onesify',
         'matrixmod2.proper_permutation', 'matrixmod2.fix_top', 'matrixmod2.check_proper_permutation', 'matrixmod2.random_bitstring'],
         bounds='all symmetric invertible binary 2x2 (3x3) matrices with nonzero diagonal; all random draws up to the stated count')
def albert(cx):
    n = cx.p['n']
    D = cx.bitmx('d', n, n)
    cx.assume(land(*[D[i, j] == D[j, i] for i in range(n) for j in range(i)]))
    cx.assume(det2(D) == 1)
    cx.assume(lor(*[D[i, i] == 1 for i in range(n)]))
    if cx.symbolic:
        D = np.array([[int(x) for x in r] for r in D.tolist()])   # determinants inside are a C routine
    D0 = D.copy()
    with with_random(mtx, cx, cx.p['d']):
        M = mtx.albert_factor(D)
    P = mul2(np.asarray(M, dtype=object), np.asarray(M, dtype=object).T)
    for i in range(n):
        for j in range(n):
            cx.check(P[i][j] == D0[i, j], "albert_factor(D)=M does not satisfy M M^T = D mod 2")
