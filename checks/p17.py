"""P17: symplectic (s,p) calculus represents Clifford conjugation of Paulis."""
import itertools
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.tools import symplectic as sym
from pygsti.tools import matrixmod2 as mtx

LOGIC = 'QF_FD'
MODS = ['pygsti.tools.symplectic', 'pygsti.tools.matrixmod2']
META = {'assumptions': [
    'numpy integer arrays are modelled as unbounded integers (no int8/int64 wrap-around)',
    'symplectic inputs are constrained to be valid (s,p) pairs by an independent predicate; numbers of qubits n<=3',
    'np.random.* replaced by arbitrary values of the documented range']}


# ---------------- independent reference: Paulis i^k X^a Z^b

def pmul(P, Q):
    a1, b1, k1 = P
    a2, b2, k2 = Q
    n = len(a1)
    k = k1 + k2
    for i in range(n):
        k = k + 2 * (b1[i] * a2[i])
    return ([(a1[i] + a2[i]) % 2 for i in range(n)], [(b1[i] + b2[i]) % 2 for i in range(n)], k % 4)


def ppow(P, e):
    """P if e==1 else identity"""
    a, b, k = P
    return ([x * e for x in a], [x * e for x in b], k * e)


def column(s, p, j):
    n = s.shape[0] // 2
    return ([s[i, j] for i in range(n)], [s[i + n, j] for i in range(n)], p[j])


def apply_to_pauli(s, p, P):
    """conjugate i^k X^a Z^b by the Clifford (s,p)"""
    n = s.shape[0] // 2
    a, b, k = P
    out = ([0] * n, [0] * n, k)
    for i in range(n):
        out = pmul(out, ppow(column(s, p, i), a[i]))
    for i in range(n):
        out = pmul(out, ppow(column(s, p, i + n), b[i]))
    return out


def ref_compose(s1, p1, s2, p2):
    return [apply_to_pauli(s2, p2, column(s1, p1, j)) for j in range(len(p1))]


def eqcol(s, p, j, P):
    n = s.shape[0] // 2
    a, b, k = P
    return land(*([s[i, j] == a[i] for i in range(n)] + [s[i + n, j] == b[i] for i in range(n)] + [p[j] % 4 == k]))


def is_symplectic(s):
    n = s.shape[0] // 2
    cs = []
    for i in range(2 * n):
        for j in range(i + 1, 2 * n):
            t = 0
            for k in range(n):
                t = t + s[k, i] * s[k + n, j] + s[k + n, i] * s[k, j]
            cs.append(t % 2 == (1 if j == i + n else 0))
    return land(*cs)


def is_valid(s, p):
    """images of the generators square to +1: phase + a.b even"""
    n = s.shape[0] // 2
    cs = []
    for j in range(2 * n):
        t = p[j]
        for k in range(n):
            t = t + s[k, j] * s[k + n, j]
        cs.append(t % 2 == 0)
    return land(*cs)


def cliff(cx, nm, n):
    s = cx.bitmx(nm, 2 * n, 2 * n)
    p = cx.bvmx(nm + 'p', (2 * n,), 0, 3)
    cx.assume(is_symplectic(s))
    cx.assume(is_valid(s, p))
    return s, p


def is_identity(s, p):
    n2 = len(p)
    return land(*([s[i, j] == (1 if i == j else 0) for i in range(n2) for j in range(n2)] + [p[i] % 4 == 0 for i in range(n2)]))


@harness(params=[{'n': 1}, {'n': 2}], thorough_params=[{'n': 3}], modules=MODS, kinds='ifb', logic=LOGIC, timeout_ms=120000,
         encodes=['symplectic.compose_cliffords', 'symplectic.check_valid_clifford', 'symplectic.check_symplectic', 'matrixmod2.*'],
         bounds='all pairs of Cliffords on n<=2 (thorough 3) qubits')
def compose(cx):
    n = cx.p['n']
    s1, p1 = cliff(cx, 'a', n)
    s2, p2 = cliff(cx, 'b', n)
    s10, s20, p10, p20 = s1.copy(), s2.copy(), p1.copy(), p2.copy()
    s, p = sym.compose_cliffords(s1, p1, s2, p2)
    for j, P in enumerate(ref_compose(s10, p10, s20, p20)):
        cx.check(eqcol(s, p, j, P), "compose_cliffords(C1,C2) is not conjugation by C1 then C2 (column %d)" % j)
    cx.check(land(*[x == y for x, y in zip(list(s1.flat) + list(p1.flat) + list(s2.flat) + list(p2.flat),
                                           list(s10.flat) + list(p10.flat) + list(s20.flat) + list(p20.flat))]),
             "compose_cliffords modified its arguments")


@harness(params=[{'n': 1}, {'n': 2}], modules=MODS, kinds='ifb', logic=LOGIC, timeout_ms=120000,
         encodes=['symplectic.inverse_clifford', 'symplectic.inverse_symplectic'], bounds='all Cliffords on n<=2 qubits')
def inverse(cx):
    n = cx.p['n']
    s, p = cliff(cx, 'a', n)
    si, pi = sym.inverse_clifford(s, p)
    for j, P in enumerate(ref_compose(s, p, si, pi)):
        a = [1 if i == j else 0 for i in range(n)]
        b = [1 if i + n == j else 0 for i in range(n)]
        cx.check(land(*([x == y for x, y in zip(P[0], a)] + [x == y for x, y in zip(P[1], b)] + [P[2] % 4 == 0])),
                 "inverse_clifford is not the inverse Clifford")
    cx.check(land(*([lor(x == 0, x == 1) for x in si.flat] + [land(x >= 0, x <= 3) for x in pi.flat])), "entries out of range")


@harness(params=[{'n': 1}, {'n': 2}], thorough_params=[{'n': 3}], modules=MODS, kinds='ifb', logic=LOGIC, timeout_ms=60000,
         encodes=['symplectic.check_symplectic', 'symplectic.check_valid_clifford', 'symplectic.construct_valid_phase_vector',
                  'symplectic.random_phase_vector', 'symplectic.change_symplectic_form_convention', 'symplectic.symplectic_form'],
         bounds='all binary 2n x 2n matrices, phases 0..3, n<=2 (3)')
def predicates(cx):
    n = cx.p['n']
    s = cx.bitmx('s', 2 * n, 2 * n)
    p = cx.bvmx('p', (2 * n,), 0, 3)
    # s as column-symplectic  <=> s Omega s^T = Omega  (both equivalent over GF(2))
    ok = sym.check_symplectic(s)
    if ok:
        cx.check(is_symplectic(s), "check_symplectic accepts a non-symplectic matrix")
        v = is_valid(s, p)
        try:
            r = sym.check_valid_clifford(s, p)
        except AssertionError:
            r = False
        if r:
            cx.check(v, "check_valid_clifford accepts an invalid phase vector")
        else:
            cx.check(lnot(v), "check_valid_clifford rejects a valid Clifford")
        p2 = sym.construct_valid_phase_vector(s, p)
        cx.check(is_valid(s, p2), "construct_valid_phase_vector gives an invalid phase vector")
        cx.check(land(*[limplies(v, p2[i] == p[i]) for i in range(2 * n)]), "construct_valid_phase_vector changed a valid seed")
        sd = sym.change_symplectic_form_convention(s, 'directsum')
        if n > 1:
            cx.check(sym.check_symplectic(sd, 'directsum'), "change of convention does not give a directsum-symplectic matrix")
            for i in range(n):
                for j in range(n):
                    cx.check(land(sd[2 * i, 2 * j] == s[i, j], sd[2 * i + 1, 2 * j] == s[i + n, j],
                                  sd[2 * i, 2 * j + 1] == s[i, j + n], sd[2 * i + 1, 2 * j + 1] == s[i + n, j + n]),
                             "directsum convention entries misplaced")
        back = sym.change_symplectic_form_convention(sd, 'standard')
        cx.check(land(*[x == y for x, y in zip(back.flat, s.flat)]), "convention round trip is not the identity")
    else:
        cx.check(lnot(is_symplectic(s)), "check_symplectic rejects a symplectic matrix")


@harness(params=[{'n': 1}, {'n': 2}], modules=MODS, kinds='ifb', logic=LOGIC,
         encodes=['symplectic.random_phase_vector'], bounds='all symplectic s on n<=2 qubits, arbitrary random bits')
def random_phase(cx):
    n = cx.p['n']
    s = cx.bitmx('s', 2 * n, 2 * n)
    cx.assume(is_symplectic(s))
    bits = cx.bitmx('r', 2 * n)

    class R(object):
        def __init__(self): pass

        def randint(self, *a, **k): return bits
    old = sym._np
    try:
        rnd = R()

        class NP(object):
            def __getattr__(self, k):
                return rnd if k == 'random' else getattr(old, k)
        sym._np = NP()
        p = sym.random_phase_vector(s, n)
    finally:
        sym._np = old
    cx.check(is_valid(s, p), "random_phase_vector returned an invalid phase vector")
    cx.check(land(*[land(x >= 0, x <= 3) for x in p.flat]), "phase out of range")


def _pauli_sp(cx, layer, n, labels):
    """(a,b) of a list of (name,qubit)"""
    a, b = [0] * n, [0] * n
    for nm, q in layer:
        i = labels.index(q)
        a[i] = 1 if nm in 'XY' else 0
        b[i] = 1 if nm in 'ZY' else 0
    return a, b


@harness(params=[{'n': 1, 'w': w} for w in ('post', 'pre')] + [{'n': 2, 'w': w} for w in ('post', 'pre')], modules=MODS, kinds='ifb', logic=LOGIC,
         encodes=['symplectic.find_postmultipled_pauli', 'symplectic.find_premultipled_pauli'],
         bounds='all Cliffords on n<=2 qubits and all phase vectors valid for the same s')
def find_pauli(cx):
    n, w = cx.p['n'], cx.p['w']
    s, p = cliff(cx, 'a', n)
    pt = cx.bvmx('pt', (2 * n,), 0, 3)
    cx.assume(is_valid(s, pt))
    labels = ['Q%d' % (5 - i) for i in range(n)]
    f = sym.find_postmultipled_pauli if w == 'post' else sym.find_premultipled_pauli
    layer = f(s, p, pt, qubit_labels=labels)
    cx.check(sorted(q for _, q in layer) == sorted(labels), "pauli layer does not cover each qubit once")
    a, b = _pauli_sp(cx, layer, n, labels)
    # conjugation by the Pauli (a,b) flips the sign of Paulis anticommuting with it
    for j in range(2 * n):
        if w == 'post':   # after the Clifford: acts on the images
            t = 0
            for k in range(n):
                t = t + s[k, j] * b[k] + s[k + n, j] * a[k]
        else:             # before the Clifford: acts on the generators
            t = b[j] if j < n else a[j - n]
        cx.check((p[j] + 2 * t) % 4 == pt[j], "Pauli layer does not convert the implemented into the target phases")


@harness(params=[{'ns': (1, 1)}, {'ns': (1, 2)}, {'ns': (2, 1)}, {'ns': (1, 1, 1)}], modules=MODS, kinds='ifb', logic=LOGIC,
         encodes=['symplectic.symplectic_kronecker'], bounds='factors on 1+1,1+2,2+1,1+1+1 qubits, all entries symbolic')
def kronecker(cx):
    ns = cx.p['ns']
    N = sum(ns)
    sps = [(cx.bitmx('s%d' % i, 2 * m, 2 * m), cx.bvmx('p%d' % i, (2 * m,), 0, 3)) for i, m in enumerate(ns)]
    S, P = sym.symplectic_kronecker(sps)
    cx.check_shape(S, (2 * N, 2 * N), "kronecker")
    off = 0
    which = []
    for f, m in enumerate(ns):
        which += [(f, i) for i in range(m)]
    for i in range(2 * N):
        fi, qi = which[i % N]
        ii = qi + (ns[fi] if i >= N else 0)
        cx.check(P[i] == sps[fi][1][ii], "kronecker phase vector misplaced")
        for j in range(2 * N):
            fj, qj = which[j % N]
            jj = qj + (ns[fj] if j >= N else 0)
            cx.check(S[i, j] == (sps[fi][0][ii, jj] if fi == fj else 0), "kronecker matrix misplaced")


@harness(params=[{'ne': 1, 'n': 2}, {'ne': 2, 'n': 2}, {'ne': 1, 'n': 3}, {'ne': 2, 'n': 3}], modules=MODS, kinds='ifb', logic=LOGIC,
         encodes=['symplectic.embed_clifford'], bounds='all (s,p) on ne<=2 qubits embedded at any distinct positions of n<=3 qubits')
def embed(cx):
    ne, n = cx.p['ne'], cx.p['n']
    s = cx.bitmx('s', 2 * ne, 2 * ne)
    p = cx.bvmx('p', (2 * ne,), 0, 3)
    inds = list(cx.choice('inds', list(itertools.permutations(range(n), ne))))
    S, P = sym.embed_clifford(s, p, inds, n)
    pos = {}
    for k, q in enumerate(inds):
        pos[q] = k
        pos[q + n] = k + ne
    for i in range(2 * n):
        cx.check(P[i] == (p[pos[i]] if i in pos else 0), "embedded phase vector wrong")
        for j in range(2 * n):
            if i in pos and j in pos:
                e = s[pos[i], pos[j]]
            else:
                e = 1 if i == j else 0
            cx.check(S[i, j] == e, "embedded symplectic matrix wrong")


@harness(params=[{'g': g, 'o': o, 'n': n} for g in ('H', 'P', 'CNOT', 'SWAP') for o in ('row', 'column') for n in (2, 3)], modules=MODS, kinds='ifb', logic=LOGIC,
         encodes=['symplectic.apply_internal_gate_to_symplectic'], bounds='all binary matrices on n<=3 qubits, all qubit choices')
def apply_internal(cx):
    g, o, n = cx.p['g'], cx.p['o'], cx.p['n']
    s = cx.bitmx('s', 2 * n, 2 * n)
    q = list(cx.choice('q', list(itertools.permutations(range(n), 1 if g in 'HP' else 2))))
    s0 = s.copy()
    sym.apply_internal_gate_to_symplectic(s, g, q, optype=o)
    reps = {'H': [[0, 1], [1, 0]], 'P': [[1, 0], [1, 1]],
            'CNOT': [[1, 0, 0, 0], [1, 1, 0, 0], [0, 0, 1, 1], [0, 0, 0, 1]],
            'SWAP': [[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]}[g]
    m = len(q)
    E = [[1 if i == j else 0 for j in range(2 * n)] for i in range(2 * n)]
    pos = list(q) + [x + n for x in q]
    for i in range(2 * m):
        for j in range(2 * m):
            E[pos[i]][pos[j]] = reps[i][j]
    for i in range(2 * n):
        for j in range(2 * n):
            t = 0
            for k in range(2 * n):
                if o == 'row':
                    t = t + (s0[k, j] if E[i][k] else 0)
                else:
                    t = t + (s0[i, k] if E[k][j] else 0)
            cx.check(s[i, j] == t % 2, "apply_internal_gate_to_symplectic(%s,%s) is not multiplication by the gate's matrix" % (g, o))


@harness(params=[{'n': 1}, {'n': 2}, {'n': 3}], modules=MODS, kinds='ifb', logic=LOGIC,
         encodes=['symplectic.find_symplectic_transvection', 'symplectic.symplectic_transvection', 'symplectic.symplectic_innerproduct'],
         bounds='all pairs of nonzero binary vectors of length 2n, n<=3')
def transvection(cx):
    n = cx.p['n']
    x = cx.bitmx('x', 2 * n)
    y = cx.bitmx('y', 2 * n)
    cx.assume(lor(*[v == 1 for v in x.flat]))
    cx.assume(lor(*[v == 1 for v in y.flat]))
    T = sym.find_symplectic_transvection(x, y)
    z = sym.symplectic_transvection(T[0], x)
    z = sym.symplectic_transvection(T[1], z)
    cx.check(land(*[a == b for a, b in zip(z.flat, y.flat)]), "the transvections found do not map x to y")
    # inner product is the directsum symplectic form
    t = 0
    for i in range(n):
        t = t + x[2 * i] * y[2 * i + 1] + x[2 * i + 1] * y[2 * i]
    cx.check(sym.symplectic_innerproduct(x, y) == t % 2, "symplectic inner product wrong")


@harness(params=[{'n': 1, 'k': 0}] + [{'n': 2, 'k': k} for k in range(12)], modules=MODS, kinds='ifb', logic=LOGIC, limit=200, timeout_ms=60000,
         encodes=['symplectic.get_symplectic_matrix', 'symplectic.get_symplectic_label', 'symplectic.int_to_bitstring',
                  'symplectic.bitstring_to_int', 'symplectic.numberofsymplectic'],
         bounds='every index i in [0,|Sp(2n)|), n<=2')
def symplectic_index(cx):
    n = cx.p['n']
    N = {1: 6, 2: 720}[n]
    cx.check(sym.numberofsymplectic(n) == N, "group order")
    i = cx.bv('i', 0, N - 1) if n == 1 else cx.bv('i', 60 * cx.p['k'], 60 * cx.p['k'] + 59)
    m = sym.get_symplectic_matrix(i, n)
    s = sym.change_symplectic_form_convention(m)
    cx.check(is_symplectic(s), "get_symplectic_matrix(i) is not symplectic")
    j = sym.get_symplectic_label(m)
    cx.check(j == i, "get_symplectic_label is not the inverse of get_symplectic_matrix (indexing is not one-to-one)")


@harness(modules=[], encodes=['symplectic.get_internal_gate_symplectic_representations', 'internalgates.get_standard_gatename_unitaries',
                              'internalgates.get_internal_gate_unitaries'],
         bounds='every tabulated Clifford gate; all entries of its phase/symplectic pair',
         params=[{'k': k} for k in range(6)])
def gate_tables(cx):
    """tables: the tabulated (s,p) of each gate is the conjugation action of its tabulated unitary"""
    from pygsti.tools import internalgates as ig
    U = dict(ig.get_internal_gate_unitaries())
    std = ig.get_standard_gatename_unitaries()
    U.update({k: v for k, v in std.items() if not callable(v)})
    reps = sym.get_internal_gate_symplectic_representations()
    names = sorted(k for k in reps if k in U)
    names = names[cx.p['k']::6]
    cx.check(len(names) > 0, "no gates tabulated")
    X = np.array([[0, 1], [1, 0]], complex)
    Z = np.diag([1, -1]).astype(complex)
    I = np.eye(2)
    g = cx.choice('gate', names)
    s, p = reps[g]
    n = len(p) // 2
    u = np.array(U[g])

    def op(M, q):
        r = np.eye(1)
        for k in range(n):
            r = np.kron(r, M if k == q else I)
        return r
    # symbolic coefficients: the most general Pauli-group relation is decided by linearity on generators
    c = [cx.real('c%d' % j, -1, 1) for j in range(2 * n)]
    lhs = 0
    rhs = 0
    for j in range(2 * n):
        gen = op(X if j < n else Z, j % n)
        img = np.eye(2 ** n, dtype=complex) * (1j ** int(p[j]))
        for k in range(n):
            if s[k, j]:
                img = img @ op(X, k)
        for k in range(n):
            if s[k + n, j]:
                img = img @ op(Z, k)
        lhs = lhs + np.array([c[j] * x for x in (u @ gen @ u.conj().T).flat], dtype=object)
        rhs = rhs + np.array([c[j] * x for x in img.flat], dtype=object)
    cx.check_close(lhs, rhs, "tabulated symplectic rep of gate %s is not the action of its unitary" % g)
