"""P22: basis changes, vectors/superoperators/Choi matrices in different bases (tools/basistools, tools/jamiolkowski, objects/basis)."""
import numpy as np
from symex.harness import harness, land, lor, lnot
from pygsti.tools import basistools as BT
from pygsti.tools import jamiolkowski as J
from pygsti.tools import optools as OT
from pygsti.objects import basis as B
from pygsti.objects.labeldicts import StateSpaceLabels

MODS = ['pygsti.tools.basistools', 'pygsti.tools.jamiolkowski', 'pygsti.tools.optools', 'pygsti.tools.matrixtools']
META = {'assumptions': ['basis elements and their inverses are computed concretely (floating point) by the real code; the converted vectors and matrices are symbolic reals',
                        'scipy sparse matrices hold concrete entries only: sparse bases are compared with the dense ones element by element']}
COMMON = dict(modules=MODS, limit=300)


def bb(n, d): return B.BuiltinBasis(n, d)
def pauli(n): return {'I': np.eye(2), 'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1., -1.])}[n]


def ref_elements(name, d2):
    """independent definition of the built-in bases"""
    d = int(round(d2**.5))
    E = lambda i, j: np.array([[1. + 0j if (r, c) == (i, j) else 0 for c in range(d)] for r in range(d)])
    if name == 'std':
        return [E(i, j) for i in range(d) for j in range(d)]
    if name in ('gm', 'gm_unnormalized'):
        out = [np.eye(d) + 0j]
        out += [E(i, j) + E(j, i) for i in range(d) for j in range(i + 1, d)]
        out += [-1j * E(i, j) + 1j * E(j, i) for i in range(d) for j in range(i + 1, d)]
        out += [np.diag([1.] * k + [-k] + [0.] * (d - k - 1)) * (2. / (k * (k + 1)))**.5 for k in range(1, d)]
        return out if name != 'gm' else [out[0] / d**.5] + [m / 2**.5 for m in out[1:]]
    if name == 'pp':
        out = [np.eye(1)]
        for _ in range(int(round(np.log2(d)))):
            out = [np.kron(a, pauli(p) / 2**.5) for a in out for p in 'IXYZ']
        return out
    if name == 'qt':  # two-qubit Paulis on the symmetric subspace
        A = np.array([[1, 0, 0, 0], [0, 2**-.5, 2**-.5, 0], [0, 0, 0, 1]])
        s = lambda a, b: A.dot(np.kron(pauli(a), pauli(b))).dot(A.T)
        n = lambda m: m / np.sqrt(np.trace(m.dot(m)).real)
        xx, yy, = s('X', 'X'), s('Y', 'Y')
        I = s('I', 'I')
        p, q = xx - I / 3., yy - I / 3.
        return [n(I), n(p + q), n(p - q)] + [n(s(*l)) for l in ('YZ', 'IX', 'IY', 'IZ', 'XY', 'XZ')]
    if name == 'id':
        return [np.eye(d)]


BASES = {1: ['std', 'pp', 'gm'], 4: ['std', 'pp', 'gm', 'gm_unnormalized'], 9: ['std', 'gm', 'qt'], 16: ['std', 'pp', 'gm']}


@harness(params=[dict(n=n, d=d) for d in (1, 4, 9, 16) for n in BASES[d]] + [dict(n='id', d=4)], kinds='fc', bounds='matrix entries in [-1,1], dimensions 1,4,9,16',
         encodes=['vec_to_stdmx', 'stdmx_to_vec', 'Basis.get_to_std', 'Basis.get_from_std', 'Basis.vector_elements', 'BuiltinBasis._lazy_build_elements', 'std_matrices', 'gm_matrices', 'pp_matrices', 'qt_matrices'], **COMMON)
def expand(cx):
    """a vector is the list of coefficients of a matrix in the basis"""
    n, d2 = cx.p['n'], cx.p['d']
    d = int(round(d2**.5))
    b = bb(n, d2)
    ref = ref_elements(n, d2)
    cx.check(len(b) == b.size == len(ref) and len(set(b.labels)) == len(b.labels) == b.size and b.dim == d2 and b.elsize == d2 and b.elshape == (d, d), "size and labels")
    v = cx.reals('v', b.size) if b.real else list(cx.cplxmx('v', b.size))
    want = [[sum(v[k] * complex(ref[k][i, j]) for k in range(b.size)) for j in range(d)] for i in range(d)]
    got = BT.vec_to_stdmx(cx.array(v, (b.size,), 'f' if b.real else 'c'), n if b.size == d2 else b)
    cx.check_close(got, want, "matrix of a vector")
    got2 = BT.vec_to_stdmx(cx.array(v, (b.size, 1), 'f' if b.real else 'c'), b, keep_complex=True) if not b.real else got
    cx.check_close(got2, want, "matrix of a complex vector")
    M = cx.array([x for r in want for x in r], (d, d), 'c')
    back = BT.stdmx_to_vec(M, n if b.size == d2 else b)
    cx.check_shape(back, (b.size, 1), "vector")
    cx.check_close([back[i, 0] for i in range(b.size)], v, "vector of a matrix")
    to, frm = b.get_to_std(), b.get_from_std()
    cx.check_close([sum(complex(to[r, k]) * v[k] for k in range(b.size)) for r in range(d2)], [x for r in want for x in r], "matrix to the standard basis")
    cx.check_close([sum(complex(frm[k, r]) * want[r // d][r % d] for r in range(d2)) for k in range(b.size)], v, "matrix from the standard basis")
    if n not in ('gm_unnormalized', 'id'):  # orthonormal: the inner product is the trace inner product
        ip = sum(x * x for x in v) if b.real else sum(x * x.conjugate() if hasattr(x, 'conjugate') else x * x for x in v)
        tr = sum(want[i][j] * want[i][j].conjugate() for i in range(d) for j in range(d))
        cx.check_close(tr, ip, "orthonormal basis", tol=1e-6)
        cx.check(b.is_normalized() or n == 'std', "is_normalized")
    s = B.BuiltinBasis(n, d2, sparse=True)
    cx.check_close(s.get_to_std().toarray(), to, "sparse basis: to standard")
    cx.check_close(s.get_from_std().toarray(), frm, "sparse basis: from standard")


PAIRS = [dict(a=a, b=b, d=d) for d in (4, 9) for a in BASES[d] for b in BASES[d] if a != b] + [dict(a='pp', b='gm', d=16), dict(a='gm', b='std', d=16), dict(a='std', b='pp', d=16)]


@harness(params=PAIRS, thorough_params=[dict(a=a, b=b, d=16) for a in BASES[16] for b in BASES[16] if a != b], kinds='fc', bounds='entries in [-1,1], dimensions 4,9,16 (superoperators of dimension 16: eight free entries)',
         encodes=['change_basis', 'Basis.transform_matrix', 'Basis.reverse_transform_matrix', 'flexible_change_basis', 'Basis.equivalent', 'build_basis_pair'], **COMMON)
def change(cx):
    na, nb, d2 = cx.p['a'], cx.p['b'], cx.p['d']
    A, Bb = bb(na, d2), bb(nb, d2)
    ra, rb = ref_elements(na, d2), ref_elements(nb, d2)
    v = cx.reals('v', d2)
    real = 'pp' if d2 in (4, 16) else 'gm'
    rr = ref_elements(real, d2)
    d = int(round(d2**.5))
    # v: a Hermitian matrix given in a real basis; start: its vector in basis a
    H = [[sum(v[k] * complex(rr[k][i, j]) for k in range(d2)) for j in range(d)] for i in range(d)]
    duala = np.linalg.inv(np.array([m.flatten() for m in ra]).T)
    start = [sum(complex(duala[k, r]) * H[r // d][r % d] for r in range(d2)) for k in range(d2)]
    start = cx.array([x.real for x in start] if A.real else start, (d2,), 'f' if A.real else 'c')
    how = cx.choice('how', ['names', 'objects', 'flexible', 'mixed', 'column'])
    if how == 'names':
        w = BT.change_basis(start, na, nb)
        u = BT.change_basis(w, nb, na)
    elif how == 'objects':
        w = BT.change_basis(start, A, Bb)
        u = BT.change_basis(w, Bb, A)
    elif how == 'flexible':
        w = BT.flexible_change_basis(start, A, Bb)
        u = BT.flexible_change_basis(w, Bb, A)
    elif how == 'mixed':
        w = BT.change_basis(start, A, nb)
        u = BT.change_basis(w, nb, A)
        A2, B2 = BT.build_basis_pair(start, A, nb)
        cx.check(A2 == A and B2 == Bb and B2.dim == d2, "basis pair")
    else:
        w = BT.change_basis(start.reshape((d2, 1)), na, nb)
        cx.check_shape(w, (d2, 1), "column vector")
        u = BT.change_basis(w, nb, na)[:, 0]
        w = w[:, 0]
    cx.check_close([sum(w[k] * complex(rb[k][i, j]) for k in range(d2)) for i in range(d) for j in range(d)], [x for r in H for x in r], "the changed vector represents the same matrix")
    cx.check_close(u, start, "there and back")
    cx.check_close(Bb.reverse_transform_matrix(A), A.transform_matrix(Bb), "reverse transform")
    # superoperators
    if d2 <= 9:
        m = [[cx.real('m%d%d' % (i, j)) for j in range(d2)] for i in range(d2)]
    else:
        m = [[0.] * d2 for _ in range(d2)]
        for k in range(8):
            m[(3 * k + 1) % d2][(5 * k * k + k) % d2] = cx.real('m%d' % k)
    C = BT.change_basis(cx.array([x for r in m for x in r], (d2, d2), 'f'), real, na) if na != real else cx.array([x for r in m for x in r], (d2, d2), 'f')
    D = BT.change_basis(C, na, nb)
    back = BT.change_basis(D, nb, na)
    cx.check_close(back, C, "superoperator there and back")
    # columns of D: the action on basis elements, in terms of matrices
    inv = np.linalg.inv(np.array([r.flatten() for r in rr]).T)
    for k in range(d2):
        x = inv.dot(rb[k].flatten())  # coordinates of b_k in the real basis
        y = [sum(m[i][j] * complex(x[j]) for j in range(d2)) for i in range(d2)]
        img = [sum(y[i] * complex(rr[i][r // d, r % d]) for i in range(d2)) for r in range(d2)]
        got = [sum(D[i, k] * complex(rb[i][r // d, r % d]) for i in range(d2)) for r in range(d2)]
        cx.check_close(got, img, "superoperator acts the same in the new basis")


@harness(params=[dict(b=b) for b in ('pp', 'gm')], kinds='fc', bounds='one imaginary entry in [0.001,1]', encodes=['change_basis'], **COMMON)
def not_hermitian(cx):
    """a non-Hermitian matrix has no real vector: it is refused rather than truncated"""
    cx.print_floats()
    t = cx.real('t', 0.001, 1)
    v = cx.array([0.5, t, 0., 0.5], (4,), 'c')
    cx.check_raises(lambda: BT.change_basis(v, 'std', cx.p['b']), "complex result in a real basis", ValueError)
    w = cx.array([0.5, t, t, 0.5], (4,), 'c')
    cx.check_close(BT.change_basis(BT.change_basis(w, 'std', cx.p['b']), cx.p['b'], 'std'), w, "Hermitian matrix")


COMPOSITE = {'pp+1': (lambda: B.DirectSumBasis([bb('pp', 4), bb('pp', 1)]), [4, 1]), 'gm+pp': (lambda: B.DirectSumBasis([bb('gm', 4), bb('gm', 4)]), [4, 4]),
             'cl': (lambda: B.Basis.cast('gm', [1, 4]), [1, 4])}


@harness(params=[dict(c=c) for c in COMPOSITE], kinds='fc', bounds='block bases of dimension 5 and 8', encodes=['DirectSumBasis._lazy_build_elements', 'DirectSumBasis.get_to_element_std', 'flexible_change_basis', 'resize_std_mx', 'resize_mx', 'DirectSumBasis.equivalent', 'DirectSumBasis.simple_equivalent'], **COMMON)
def blocks(cx):
    mk, dims = COMPOSITE[cx.p['c']]
    b = mk()
    n = sum(dims)
    ds = [int(round(x**.5)) for x in dims]
    D = sum(ds)
    cx.check(b.dim == b.size == n and b.elshape == (D, D) and len(set(b.labels)) == n, "dimensions")
    v = cx.reals('v', n)
    M = [[0. for _ in range(D)] for _ in range(D)]
    o = r0 = 0
    for comp, dim, d in zip(b.component_bases, dims, ds):
        ref = ref_elements(comp.name, dim)
        for i in range(d):
            for j in range(d):
                M[r0 + i][r0 + j] = sum(v[o + k] * complex(ref[k][i, j]) for k in range(dim))
        o += dim
        r0 += d
    cx.check_close(BT.vec_to_stdmx(cx.array(v, (n,), 'f'), b), M, "block matrix of a vector")
    back = BT.stdmx_to_vec(cx.array([x for r in M for x in r], (D, D), 'c'), b) if cx.p['c'] == 'none' else None
    std = b.equivalent('std')
    w = BT.change_basis(cx.array(v, (n,), 'f'), b, std)
    cx.check_close(BT.change_basis(w, std, b), v, "there and back")
    cx.check_close([sum(w[k] * complex(std.elements[k][i, j]) for k in range(n)) for i in range(D) for j in range(D)], [x for r in M for x in r], "same matrix in the block standard basis")
    # expansion of a block superoperator to the full space and contraction back
    m = [[0.] * n for _ in range(n)]
    for k in range(8):
        m[(3 * k + 1) % n][(2 * k + k // 4) % n] = cx.real('m%d' % k)
    mm = cx.array([x for r in m for x in r], (n, n), 'f')
    full = bb('gm', D * D)
    ex = BT.flexible_change_basis(mm, b, full)
    cx.check_shape(ex, (D * D, D * D), "expanded")
    cx.check_close(BT.flexible_change_basis(ex, full, b), mm, "expanded and contracted")
    fe = ref_elements('gm', D * D)
    finv = np.linalg.inv(np.array([e.flatten() for e in fe]).T)
    for k in range(n):
        x = finv.dot(b.elements[k].flatten())
        y = [sum(ex[i, j] * complex(x[j]) for j in range(D * D)) for i in range(D * D)]
        img = [sum(m[i][k] * complex(b.elements[i].flatten()[r]) for i in range(n)) for r in range(D * D)]
        got = [sum(y[i] * complex(fe[i].flatten()[r]) for i in range(D * D)) for r in range(D * D)]
        cx.check_close(got, img, "expanded superoperator acts the same on block matrices")
    off = [(i, j) for i in range(D) for j in range(D) if not any(sum(ds[:q]) <= i < sum(ds[:q + 1]) and sum(ds[:q]) <= j < sum(ds[:q + 1]) for q in range(len(ds)))]
    for (i, j) in off:
        x = finv[:, i * D + j]
        y = [sum(ex[r, c] * complex(x[c]) for c in range(D * D)) for r in range(D * D)]
        cx.check_close(y, [0.] * (D * D), "expanded superoperator ignores what lies outside the blocks")
    r = BT.resize_mx(BT.change_basis(mm, b, std), ds, 'expand')
    cx.check_close(BT.resize_mx(r, ds, 'contract'), BT.change_basis(mm, b, std), "resize there and back")


@harness(params=[dict(k='pp*pp'), dict(k='pp*gm'), dict(k='std*gm')], kinds='fc', bounds='two-qubit product bases', encodes=['TensorProdBasis._lazy_build_elements', 'TensorProdBasis.equivalent'], **COMMON)
def products(cx):
    names = cx.p['k'].split('*')
    b = B.TensorProdBasis([bb(n, 4) for n in names]) if names[0] != 'std' else B.TensorProdBasis([bb('gm', 4), bb('gm', 4)]).equivalent('std')
    if names[0] == 'std':
        names = ['std', 'std']
    ra, rb = [ref_elements(n, 4) for n in names]
    v = cx.reals('v', 16) if b.real else list(cx.cplxmx('v', 16))
    want = [[sum(v[4 * p + q] * complex(np.kron(ra[p], rb[q])[i, j]) for p in range(4) for q in range(4)) for j in range(4)] for i in range(4)]
    cx.check_close(BT.vec_to_stdmx(cx.array(v, (16,), 'f' if b.real else 'c'), b), want, "matrix of a vector in a product basis")
    back = BT.stdmx_to_vec(cx.array([x for r in want for x in r], (4, 4), 'c'), b)
    cx.check_close(back[:, 0], v, "vector of a matrix in a product basis")
    labs = [l1 + l2 for l1 in bb(names[0], 4).labels for l2 in bb(names[1], 4).labels]
    cx.check(list(b.labels) == labs, "product labels in element order")
    cx.check_close(BT.change_basis(BT.change_basis(cx.array(v, (16,), 'f' if b.real else 'c'), b, bb('std', 16)), bb('std', 16), b), v, "there and back")


@harness(params=[dict(t=t) for t in (['Q0'], ['Q1'], ['Q1', 'Q0'])], kinds='fc', bounds='two qubits', encodes=['EmbeddedBasis._lazy_build_elements'], **COMMON)
def embedded(cx):
    t = cx.p['t']
    ssl = StateSpaceLabels([('Q0', 'Q1')])
    e = B.EmbeddedBasis(bb('pp', 4**len(t)), ssl, tuple(t))
    ref = ref_elements('pp', 4**len(t))
    v = cx.reals('v', e.size)
    M = [[sum(v[k] * complex((np.kron(ref[k], np.eye(2)) if t == ['Q0'] else np.kron(np.eye(2), ref[k]) if t == ['Q1'] else
                              ref[k].reshape(2, 2, 2, 2).transpose(1, 0, 3, 2).reshape(4, 4))[i, j]) for k in range(e.size)) for j in range(4)] for i in range(4)]
    cx.check_close(BT.vec_to_stdmx(cx.array(v, (e.size,), 'f'), e), M, "embedded element")
    cx.check_close(BT.stdmx_to_vec(cx.array([x for r in M for x in r], (4, 4), 'c'), e)[:, 0], v, "vector in an embedded basis")
    cx.check(list(e.labels) == ['%s:%s' % (l, ','.join(t)) for l in bb('pp', 4**len(t)).labels], "labels")
    cx.check([B.EmbeddedBasis.unembed_label(l, t) for l in e.labels] == list(bb('pp', 4**len(t)).labels), "unembedded labels")


CH = [dict(o=o, c=c, d=d) for d, os in ((4, ('pp', 'gm', 'std')), (9, ('gm', 'qt'))) for o in os for c in os]


def superop(cx, d2, name):
    """symbolic Hermiticity-preserving superoperator in basis `name`, plus its standard-basis matrix as nested lists"""
    real = 'pp' if d2 == 4 else 'gm'
    if d2 <= 9:
        m = [[cx.real('m%d%d' % (i, j)) for j in range(d2)] for i in range(d2)]
    else:
        m = [[None] * d2 for _ in range(d2)]
        for k in range(8):
            m[(3 * k + 1) % d2][(5 * k * k + k) % d2] = cx.real('m%d' % k)
    def conv(to):
        T = np.linalg.inv(np.array([e.flatten() for e in ref_elements(to, d2)]).T).dot(np.array([e.flatten() for e in ref_elements(real, d2)]).T)
        Ti = np.linalg.inv(T)
        nz = [(p, q) for p in range(d2) for q in range(d2) if m[p][q] is not None]
        return [[sum(complex(T[i, p] * Ti[q, j]) * m[p][q] for p, q in nz) for j in range(d2)] for i in range(d2)]
    o, s = conv(name), conv('std')
    if bb(name, d2).real:
        o = [[x.real for x in r] for r in o]
    return cx.array([x for r in o for x in r], (d2, d2), 'f' if bb(name, d2).real else 'c'), s


@harness(params=CH, kinds='fc', bounds='all Hermiticity-preserving superoperators on one qubit (entries in [-1,1]); and one qutrit',
         encodes=['jamiolkowski_iso', 'jamiolkowski_iso_inv', 'fast_jamiolkowski_iso_std', 'fast_jamiolkowski_iso_std_inv'], **COMMON)
def choi(cx):
    o, c, d2 = cx.p['o'], cx.p['c'], cx.p['d']
    d = int(round(d2**.5))
    op, S = superop(cx, d2, o)
    C = J.jamiolkowski_iso(op, o, c)
    cb = ref_elements(c, d2)
    # the map is rho -> d sum_ij C_ij B_i rho B_j^dagger
    for k in range(d2):
        rho = np.zeros((d, d))
        rho[k // d, k % d] = 1.
        T = {}
        out = [0.] * d2
        for i in range(d2):
            for j in range(d2):
                K = cb[i].dot(rho).dot(cb[j].conj().T).flatten()
                for r in range(d2):
                    if abs(K[r]) > 1e-14:
                        out[r] = out[r] + d * C[i, j] * complex(K[r])
        cx.check_close(out, [S[r][k] for r in range(d2)], "Choi matrix represents the map", tol=1e-6)
    cx.check_close([[C[j, i] for j in range(d2)] for i in range(d2)], [[C[i, j].conjugate() for j in range(d2)] for i in range(d2)], "Choi matrix is Hermitian")
    cx.check_close(J.jamiolkowski_iso_inv(C, c, o), op, "inverse")
    F = J.fast_jamiolkowski_iso_std(op, o)
    cx.check_close(F, J.jamiolkowski_iso(op, o, 'std'), "fast version")
    cx.check_close(J.fast_jamiolkowski_iso_std_inv(F, o), op, "inverse of the fast version")


@harness(kinds='fc', bounds='qubit plus one classical level', encodes=['jamiolkowski_iso', 'jamiolkowski_iso_inv'], **COMMON)
def choi_blocks(cx):
    b = B.DirectSumBasis([bb('pp', 4), bb('pp', 1)])
    m = [[0.] * 5 for _ in range(5)]
    for k in range(10):
        m[(3 * k + 1) % 5][(2 * k + k // 5) % 5] = cx.real('m%d' % k)
    op = cx.array([x for r in m for x in r], (5, 5), 'f')
    full = bb('gm', 9)
    C = J.jamiolkowski_iso(op, b, full)
    cx.check_close(C, J.jamiolkowski_iso(BT.flexible_change_basis(op, b, full), full, full), "Choi matrix of the expanded map")
    cx.check_close(J.jamiolkowski_iso_inv(C, full, b), op, "inverse")
    F = J.fast_jamiolkowski_iso_std(op, b)
    cx.check_close(F, J.jamiolkowski_iso(op, b, bb('std', 9)), "fast version")
    cx.check_close(J.fast_jamiolkowski_iso_std_inv(F, b), op, "inverse of the fast version")


@harness(params=[dict(d=2), dict(d=3)], kinds='fc', bounds='any complex matrix with entries in the unit box, d=2,3', encodes=['unitary_to_process_mx', 'state_to_stdmx', 'state_to_dmvec', 'unitary_to_pauligate', 'state_to_pauli_density_vec'], **COMMON)
def unitaries(cx):
    d = cx.p['d']
    U = cx.cplxmx('U', d, d)
    P = OT.unitary_to_process_mx(U)
    for k in range(d * d):
        r, c = divmod(k, d)
        want = [U[i, r] * U[j, c].conjugate() for i in range(d) for j in range(d)]
        cx.check_close([P[x, k] for x in range(d * d)], want, "superoperator is rho -> U rho U^dagger")
    psi = cx.cplxmx('psi', d)
    rho = [[psi[i] * psi[j].conjugate() for j in range(d)] for i in range(d)]
    cx.check_close(BT.state_to_stdmx(psi), rho, "density matrix of a state")
    cx.check_close(np.reshape(OT.state_to_dmvec(psi), (d * d,)), [x for r in rho for x in r], "density vector of a state")
    if d == 2:
        G = OT.unitary_to_pauligate(U)
        v = BT.state_to_pauli_density_vec(psi)
        pp = ref_elements('pp', 4)
        cx.check_close([v[k, 0] for k in range(4)], [sum(complex(pp[k][j, i]) * rho[i][j] for i in range(2) for j in range(2)) for k in range(4)], "Pauli vector of a state")
        for a in range(4):
            for b in range(4):
                t = sum(complex(pp[a][l, i] * pp[b][j, k]) * U[i, j] * U[l, k].conjugate() for i in range(2) for j in range(2) for k in range(2) for l in range(2) if pp[a][l, i] * pp[b][j, k] != 0)
                cx.check_close(G[a, b], t, "Pauli transfer matrix")
