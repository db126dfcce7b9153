"""P15: parameter vectors round-trip and members match their definition (objects/operation, spamvec, povm, instrument, modelmember)."""
import copy
import itertools
import numpy as np
from symex.harness import harness, land, lor, lnot
from pygsti.objects import operation as OP
from pygsti.objects import spamvec as SV
from pygsti.objects import povm as PV
from pygsti.objects import instrument as IN
from pygsti.objects import modelmember as MM
from pygsti.objects.labeldicts import StateSpaceLabels
from pygsti.objects.replib import slowreplib as RL

MODS = ['pygsti.objects.operation', 'pygsti.objects.spamvec', 'pygsti.objects.povm', 'pygsti.objects.instrument', 'pygsti.objects.modelmember',
        'pygsti.objects.protectedarray', 'pygsti.objects.replib.slowreplib', 'pygsti.tools.matrixtools', 'pygsti.tools.slicetools', 'pygsti.tools.optools',
        'pygsti.tools.basistools']
META = {'assumptions': ['members are built from concrete starting values; every parameter is then a symbolic real in [-1, 1]',
                        'eigen-decompositions (EigenvalueParamDenseOp, CPTPSPAMVec.set_value) and matrix exponentials (LindbladOp) are outside; what is built from their concrete '
                        'results is covered', 'the Python representations (slowreplib) are encoded, not the compiled ones']}
COMMON = dict(modules=MODS, limit=240)


def I(n): return [[1. if i == j else 0. for j in range(n)] for i in range(n)]
def mm(a, b): return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]
def mv(a, v): return [sum(x * y for x, y in zip(r, v)) for r in a]
def tr(a): return [list(r) for r in zip(*a)]
def add(*ms): return [[sum(x) for x in zip(*rs)] for rs in zip(*ms)]
def sc(c, m): return [[c * x for x in r] for r in m]
def kron(a, b): return [[x * y for x in ra for y in rb] for ra in a for rb in b]
def kronv(a, b): return [x * y for x in a for y in b]
def rows(v, n): return [list(v[i * n:(i + 1) * n]) for i in range(n)]
def conc(seed, *sh): return np.round(np.random.RandomState(seed).uniform(-1, 1, sh) * 8) / 8
def cl(a): return [[complex(x) if np.iscomplexobj(a) else float(x) for x in r] for r in a]


def tpmx(seed, n):
    m = conc(seed, n, n)
    m[0] = [1] + [0] * (n - 1)
    return m


# ---- reference models: (build, number of parameters, matrix as a function of the parameters)

class Spec:
    def __init__(self, build, n, ref, hooks=None):
        self.build, self.n, self.ref, self.hooks = build, n, ref, hooks


def full(seed, n): return Spec(lambda: OP.FullDenseOp(conc(seed, n, n)), n * n, lambda v: rows(v, n))
def tp(seed, n): return Spec(lambda: OP.TPDenseOp(tpmx(seed, n)), n * n - n, lambda v: [[1.] + [0.] * (n - 1)] + [list(v[i * n:(i + 1) * n]) for i in range(n - 1)])
def static(seed, n): return Spec(lambda: OP.StaticDenseOp(conc(seed, n, n)), 0, lambda v: cl(conc(seed, n, n)))


def fullc(seed, n):
    return Spec(lambda: OP.FullDenseOp(conc(seed, n, n) + 1j * conc(seed + 1, n, n)), 2 * n * n, lambda v: [[v[i * n + j] + 1j * v[n * n + i * n + j] for j in range(n)] for i in range(n)])


def staticc(seed, n):
    M = conc(seed, n, n) + 1j * conc(seed + 1, n, n)
    return Spec(lambda: OP.StaticDenseOp(M), 0, lambda v: cl(M))


def linear(seed, n, lt=False):
    base = conc(seed, n, n)
    mp = {0: [(0, 1), (1, 0)], 1: [(1, 1)], 2: [(0, n - 1)] if n > 2 else [(0, 0)]}
    L, R = (conc(seed + 1, n, n), conc(seed + 2, n, n)) if lt else (None, None)

    def ref(v):
        m = cl(base)
        for p, ij in mp.items():
            for i, j in ij: m[i][j] = m[i][j] + v[p]
        return mm(cl(L), mm(m, cl(R))) if lt else m
    return Spec(lambda: OP.LinearlyParamDenseOp(base, OP._np.zeros(3), {k: list(v) for k, v in mp.items()}, L, R, True), 3, ref)


def eigen():
    M = np.array([[1, 0, 0, 0], [0, .5, 0, 0], [0, 0, 0, -.5], [0, 0, .5, 0]])
    # eigenvalues 1, 1/2 and +-i/2: parameters shift the real ones and the (real, imaginary) part of the pair
    def ref(v):
        return [[1. + v[0], 0., 0., 0.], [0., .5 + v[1], 0., 0.], [0., 0., v[2], None], [0., 0., None, v[2]]]
    return Spec(lambda: OP.EigenvalueParamDenseOp(M), 4, ref)


def paulis(nq):
    s = [[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]
    out = [[[1]]]
    for _ in range(nq): out = [kron(a, b) for a in out for b in s]
    return out


def stoch(nq, depol=False):
    d2, P = 4**nq, paulis(nq)
    # in the Pauli basis conjugation by a Pauli is diagonal: +1 where it commutes, -1 where not
    com = [[1 if all(abs(x - y) < 1e-9 for r, s in zip(mm(a, b), mm(b, a)) for x, y in zip(r, s)) else -1 for b in P] for a in P]

    def ref(v):
        w = [v[0]] * (d2 - 1) if depol else v
        return [[1. + sum(w[k] * w[k] * (com[k + 1][i] - 1) for k in range(d2 - 1)) if i == j else 0. for j in range(d2)] for i in range(d2)]
    return Spec(lambda: OP.DepolarizeOp(d2) if depol else OP.StochasticNoiseOp(d2), 1 if depol else d2 - 1, ref)


def composed(parts, dense=False):
    def build(): return (OP.ComposedDenseOp if dense else OP.ComposedOp)([p.build() for p in parts])

    def ref(v):
        off, m = 0, None
        for p in parts:
            r = p.ref(v[off:off + p.n])
            off += p.n
            m = r if m is None else mm(r, m)
        return m
    return Spec(build, sum(p.n for p in parts), ref)


def expon(part, k):
    def ref(v):
        r = part.ref(v)
        m = I(len(r))
        for _ in range(k): m = mm(r, m)
        return m
    return Spec(lambda: OP.ExponentiatedOp(part.build(), k), part.n, ref)


def embed_ref(m, dims, targ, offset=0, total=None):
    """matrix acting as `m` on tensor factors `targ` (in that order) of the block `dims` and as the identity elsewhere"""
    N = int(np.prod(dims))
    total = total or N
    out = I(total)
    for i, bi in enumerate(itertools.product(*[range(d) for d in dims])):
        for j, bj in enumerate(itertools.product(*[range(d) for d in dims])):
            if all(bi[k] == bj[k] for k in range(len(dims)) if k not in targ):
                a = b = 0
                for t in targ: a, b = a * dims[t] + bi[t], b * dims[t] + bj[t]
                out[offset + i][offset + j] = m[a][b]
            else:
                out[offset + i][offset + j] = 0.
    return out


def embedded(part, dims, targ, dense=False, other=None):
    lbls = tuple('Q%d' % i for i in range(len(dims)))

    def build():
        ss = StateSpaceLabels([lbls] if not other else ([lbls, ('X',)] if other > 0 else [('X',), lbls]), dims=[tuple(dims)] if not other else
                              ([tuple(dims), (other,)] if other > 0 else [(-other,), tuple(dims)]))
        return (OP.EmbeddedDenseOp if dense else OP.EmbeddedOp)(ss, tuple(lbls[t] for t in targ), part.build())
    N = int(np.prod(dims))
    off, tot = (0, N) if not other else ((0, N + other) if other > 0 else (-other, N - other))
    return Spec(build, part.n, lambda v: embed_ref(part.ref(v), dims, targ, off, tot))


OPS = {'static2': static(1, 2), 'static4': static(1, 4), 'full2': full(2, 2), 'full4': full(3, 4), 'tp4': tp(4, 4), 'tp3': tp(4, 3),
       'fullc': fullc(5, 2), 'staticc': staticc(7, 2), 'linear': linear(8, 2), 'linearLR': linear(9, 3, True),
       'stoch1': stoch(1), 'depol1': stoch(1, True), 'depol2': stoch(2, True),
       'comp': composed([full(2, 2), static(1, 2), full(3, 2)]), 'compd': composed([full(2, 2), static(1, 2), full(3, 2)], True),
       'comptp': composed([tp(2, 4), tp(3, 4)]), 'compc': composed([fullc(1, 2), staticc(4, 2), fullc(6, 2)]), 'compcd': composed([fullc(1, 2), fullc(6, 2)], True),
       'exp0': expon(full(2, 2), 0), 'exp3': expon(full(2, 2), 3), 'exptp': expon(tp(2, 3), 2), 'expc': expon(fullc(2, 2), 2),
       'embA': embedded(full(1, 2), (2, 2), (0,)), 'embB': embedded(full(1, 2), (2, 2), (1,)), 'embAd': embedded(full(1, 2), (2, 2), (1,), True),
       'emb01': embedded(full(1, 4), (2, 2, 2), (0, 1)), 'emb20': embedded(full(1, 4), (2, 2, 2), (2, 0)), 'emb12': embedded(full(1, 4), (2, 2, 2), (1, 2), True),
       'emb23': embedded(full(1, 6), (2, 3), (0, 1)), 'emb32': embedded(full(1, 6), (2, 3), (1, 0)), 'embmix': embedded(full(1, 6), (2, 2, 3), (2, 0), True),
       'emb201s': embedded(static(1, 8), (2, 2, 2), (2, 0, 1)), 'embmixs': embedded(static(2, 12), (3, 2, 2), (1, 2, 0), True), 'embc': embedded(fullc(1, 2), (2, 2), (1,)), 'embcd': embedded(fullc(1, 4), (2, 2), (1, 0), True),
       'embblk': embedded(full(1, 2), (2, 2), (1,), False, 3), 'embblk2': embedded(full(1, 4), (2, 2), (1, 0), True, -2), 'embtp': embedded(tp(3, 4), (4, 4), (1,)),
       'embcomp': embedded(composed([full(2, 2), full(3, 2)]), (2, 2), (0,)), 'compemb': composed([embedded(full(1, 2), (2, 2), (0,)), embedded(full(2, 2), (2, 2), (1,)), static(4, 4)]),
       'compembd': composed([embedded(full(1, 2), (2, 2), (0,)), embedded(full(2, 2), (2, 2), (1,))], True), 'expcomp': expon(composed([full(2, 2), full(3, 2)]), 2)}
THOROUGH = {'stoch2': stoch(2), 'emb210': embedded(full(1, 8), (2, 2, 2), (2, 1, 0)), 'emb44': embedded(full(3, 16), (4, 4), (1, 0)), 'exp5': expon(full(2, 2), 5),
            'embmix2': embedded(full(1, 12), (3, 2, 2), (1, 2, 0)), 'comp4': composed([full(1, 4), full(2, 4)]), 'emb3q4': embedded(tp(1, 4), (4, 4, 4), (1,), True)}
OPS.update(THOROUGH)


def alloc(op):
    if op.num_params() or op.gpindices is None: pass
    op.allocate_gpindices(0, None)
    return op


def flat(M, n): return [M[i, j] for i in range(n) for j in range(n)]


def check_mx(cx, got, want, msg):
    n = len(want)
    cx.check_shape(got, (n, n), msg)
    pairs = [(got[i, j], want[i][j]) for i in range(n) for j in range(n) if want[i][j] is not None]
    cx.check_close([a for a, _ in pairs], [b for _, b in pairs], msg)


def states(cx, op, n):
    if op._evotype == 'statevec':
        x = [a + 1j * b for a, b in zip(cx.reals('xr', n), cx.reals('xi', n))]
        return x, RL.SVStateRep(cx.array(x, (n,), 'c'))
    x = cx.reals('x', n)
    return x, RL.DMStateRep(cx.array(x, (n,), 'f'))


@harness(params=[dict(op=k) for k in OPS if k not in THOROUGH], thorough_params=[dict(op=k) for k in THOROUGH], kinds='fc',
         encodes=['%s.%s' % (c, m) for c in ('FullDenseOp', 'TPDenseOp', 'LinearlyParamDenseOp', 'StochasticNoiseOp', 'DepolarizeOp', 'ComposedOp', 'ExponentiatedOp', 'EmbeddedOp')
                  for m in ('from_vector', 'to_vector', 'num_params', 'todense', 'copy')] + ['ModelMember.allocate_gpindices', '_decompose_gpindices', 'DMOpRep_Dense.acton', 'DMOpRep_Embedded.acton',
                  'DMOpRep_Composed.acton', 'DMOpRep_Exponentiated.acton', 'SVOpRep_*.acton', 'adjoint_acton'],
         bounds='all parameter and state vectors with entries in [-1,1]; dimensions up to 16 (36 in embeddings)', **COMMON)
def ops(cx):
    """the matrix and the action on a state are the defined ones after from_vector; the vector reads back; copies are independent"""
    sp = OPS[cx.p['op']]
    op = alloc(sp.build())
    n = op.dim
    cx.check(op.num_params() == sp.n, "number of parameters")
    v = cx.reals('v', sp.n)
    arr = cx.array(list(v), (sp.n,), 'f')
    op.from_vector(arr)
    want = sp.ref(v)
    cx.check_close(list(op.to_vector()), v, "vector reads back")
    check_mx(cx, op.todense(), want, "matrix")
    x, st = states(cx, op, n)
    full_ = all(y is not None for r in want for y in r)
    if full_:
        cx.check_close(list(op._rep.acton(st).todense()), mv(want, x), "action on a state")
        cx.check_close(list(st.todense()), x, "state is not changed")
        if op._evotype == 'densitymx':
            cx.check_close(list(op._rep.adjoint_acton(st).todense()), mv(tr(want), x), "adjoint action")
    if 'embed' not in cx.p['op'] and sp.n:
        w = cx.reals('w', sp.n)
        cp = op.copy()
        check_mx(cx, cp.todense(), want, "copy")
        cx.check_close(list(cp.to_vector()), v, "copy has the same parameters")
        cp.from_vector(cx.array(list(w), (sp.n,), 'f'))
        check_mx(cx, op.todense(), want, "original after changing a copy")
        cx.check_close(list(op.to_vector()), v, "original's parameters after changing a copy")
        check_mx(cx, cp.todense(), sp.ref(w), "copy after from_vector")
        if full_: cx.check_close(list(cp._rep.acton(st).todense()), mv(sp.ref(w), x), "action of the copy")
        # setting again forgets the first vector
        op.from_vector(cx.array(list(w), (sp.n,), 'f'))
        check_mx(cx, op.todense(), sp.ref(w), "matrix after a second from_vector")
        if full_: cx.check_close(list(op._rep.acton(st).todense()), mv(sp.ref(w), x), "action after a second from_vector")


def test_entry(cx, op, sp, v): pass


@harness(params=[dict(op=k) for k in ('full2', 'full4', 'tp4', 'fullc')], kinds='fc', encodes=['set_value', 'compose', 'depolarize', 'transform', '_ProtectedArray.__setitem__'],
         bounds='all matrices with entries in [-1,1]', **COMMON)
def setval(cx):
    """set_value stores the matrix; depolarize and compose are the matrix products; protected entries cannot be written"""
    sp = OPS[cx.p['op']]
    op = alloc(sp.build())
    n = op.dim
    v, w = cx.reals('v', sp.n), cx.reals('w', sp.n)
    want, ww = sp.ref(v), sp.ref(w)
    kd = 'c' if cx.p['op'] == 'fullc' else 'f'
    M = cx.array(sum(want, []), (n, n), kd)
    op.set_value(M)
    check_mx(cx, op.todense(), want, "matrix set by value")
    cx.check_close(list(op.to_vector()), v, "parameters of a matrix set by value")
    other = alloc(sp.build())
    other.from_vector(cx.array(list(w), (sp.n,), 'f'))
    check_mx(cx, op.compose(other).todense(), mm(want, ww), "compose")
    check_mx(cx, op.todense(), want, "compose leaves the operand")
    if kd == 'f':
        a = cx.real('a', 0, 1)
        am = cx.reals('am', n - 1)
        op.depolarize(cx.tofloat(a) if False else [a] * (n - 1))
        check_mx(cx, op.todense(), [[x * (1 if i == 0 else 1 - a) for x in r] for i, r in enumerate(want)], "depolarize")
        op.set_value(M)
        op.depolarize(am)
        check_mx(cx, op.todense(), [[x * (1 if i == 0 else 1 - am[i - 1]) for x in r] for i, r in enumerate(want)], "depolarize with one amount per direction")
    op.set_value(M)
    if cx.p['op'] == 'tp4':
        bad = [list(r) for r in want]
        k = cx.choice('k', list(range(n)))
        bad[0][k] = bad[0][k] + .5
        cx.check_raises(lambda: op.set_value(cx.array(sum(bad, []), (n, n), 'f')), "a first row that is not [1,0,...] is refused", ValueError)

        def poke(): op[0, k] = 2.
        cx.check_raises(poke, "writing into the protected row is refused", ValueError)
        check_mx(cx, op.todense(), want, "matrix after refused changes")
    i, j = (cx.choice('i', list(range(n - 1))) + 1), cx.choice('j', list(range(n)))
    val = cx.real('val')
    op[i, j] = val
    want[i][j] = val
    check_mx(cx, op.todense(), want, "matrix after writing one entry")
    sub = op[1:, :]
    cx.check_close([sub[a, b] for a in range(n - 1) for b in range(n)], sum(want[1:], []), "reading a slice")


@harness(params=[dict(k=k, lt=lt) for k in (1, 2) for lt in (0, 1)], kinds='fc', encodes=['LinearlyParamDenseOp.compose', 'LinearlyParamDenseOp._construct_matrix'],
         bounds='all parameter values in [-1,1]', **COMMON)
def lincompose(cx):
    """composing linearly parameterised gates gives the product of the two for all parameters of both"""
    n = 3 if cx.p['lt'] else 2
    A, Bs = (linear(1, n, bool(cx.p['lt'])), linear(5, n, bool(cx.p['lt'])))
    a, b = A.build(), Bs.build()
    c = a.compose(b)
    v = cx.reals('v', 6)
    arr = cx.array(list(v), (6,), 'f')
    c.from_vector(arr)
    check_mx(cx, c.todense(), mm(A.ref(v[:3]), Bs.ref(v[3:])), "composed gate")
    check_mx(cx, a.todense(), A.ref([0.] * 3), "first operand")
    if cx.p['k'] == 2:
        d = c.compose(a)
        w = cx.reals('w', 9)
        d.from_vector(cx.array(list(w), (9,), 'f'))
        check_mx(cx, d.todense(), mm(mm(A.ref(w[:3]), Bs.ref(w[3:6])), A.ref(w[6:])), "twice composed gate")
        check_mx(cx, c.todense(), mm(A.ref(v[:3]), Bs.ref(v[3:])), "operand after composing")


@harness(params=[dict(n=n, d=d) for n in (1, 2, 3) for d in (0, 1)], kinds='f', encodes=['StochasticNoiseOp.__init__', 'StochasticNoiseOp.copy', 'DepolarizeOp.__init__', 'DepolarizeOp.copy'],
         bounds='all rates in [0,1]', **COMMON)
def rates(cx):
    """initial rates give the stated channel at once"""
    if cx.p['n'] > 1:
        if not cx.p['d']:
            r = cx.reals('r', 3, 0, 1) if cx.p['n'] == 2 else [0.25, cx.real('s', 0, 1), 1.]
            cx.assume(land(*[lor(x >= 1e-3, x == 0) if not isinstance(x, float) else True for x in r]))
            op = OP.StochasticNoiseOp(4, 'pp', 'densitymx', r)
            R = r
        else:
            r = cx.real('r', 1e-3, 1)
            op = OP.DepolarizeOp(4, 'pp', 'densitymx', r)
            R = [r / 3] * 3
        com = [[-2 if i and k and i != k else 0 for k in range(4)] for i in range(4)]
        want = [[1. + sum(R[k - 1] * com[k][i] for k in (1, 2, 3)) if i == j else 0. for j in range(4)] for i in range(4)]
        check_mx(cx, op.todense(), want, "initial channel")
        check_mx(cx, op.copy().todense(), want, "copied channel")
    else:
        op = OP.DepolarizeOp(4) if cx.p['d'] else OP.StochasticNoiseOp(4)
        cx.one(cx.bit('b'))
        check_mx(cx, op.todense(), I(4), "no error by default")


# ---- state and effect vectors

S2 = 2**-.5


def vspec(build, n, ref): return Spec(build, n, ref)


VECS = {'static': vspec(lambda t: SV.StaticSPAMVec(np.array([.5, .25, 0, 1]), 'densitymx', t), 0, lambda v: [.5, .25, 0., 1.]),
        'full': vspec(lambda t: SV.FullSPAMVec(np.array([.5, .25, 0, 1]), 'densitymx', t), 4, lambda v: list(v)),
        'fullc': vspec(lambda t: SV.FullSPAMVec(np.array([.5, .25j]), 'statevec', t), 4, lambda v: [v[0] + 1j * v[2], v[1] + 1j * v[3]]),
        'tp': vspec(lambda t: SV.TPSPAMVec(np.array([S2, 0, 0, S2])), 3, lambda v: [S2] + list(v)),
        'tp9': vspec(lambda t: SV.TPSPAMVec(np.array([3**-.5] + [0.] * 8)), 8, lambda v: [3**-.5] + list(v)),
        'prod': vspec(lambda t: SV.TensorProdSPAMVec('prep', [SV.TPSPAMVec(np.array([S2, 0, 0, S2])), SV.FullSPAMVec(np.array([.5, .25]), 'densitymx', 'prep')]), 5,
                      lambda v: kronv([S2] + list(v[:3]), list(v[3:]))),
        'prod3': vspec(lambda t: SV.TensorProdSPAMVec('prep', [SV.FullSPAMVec(np.array([.5, .25]), 'densitymx', 'prep'), SV.StaticSPAMVec(np.array([.5, 2., 1.]), 'densitymx', 'prep'),
                                                               SV.FullSPAMVec(np.array([.5, .25]), 'densitymx', 'prep')]), 4,
                       lambda v: kronv(kronv(list(v[:2]), [.5, 2., 1.]), list(v[2:]))),
        'prodc': vspec(lambda t: SV.TensorProdSPAMVec('prep', [SV.FullSPAMVec(np.array([.5, .25j]), 'statevec', 'prep'), SV.FullSPAMVec(np.array([.5j, 1.]), 'statevec', 'prep')]), 8,
                       lambda v: kronv([v[0] + 1j * v[2], v[1] + 1j * v[3]], [v[4] + 1j * v[6], v[5] + 1j * v[7]]))}


@harness(params=[dict(v=k, t=t) for k in VECS for t in ('prep', 'effect') if t == 'prep' or k in ('static', 'full', 'fullc')], kinds='fc',
         encodes=['%s.%s' % (c, m) for c in ('FullSPAMVec', 'TPSPAMVec', 'TensorProdSPAMVec') for m in ('__init__', 'from_vector', 'to_vector', 'todense', 'set_value')] + ['DMEffectRep_Dense.probability', 'SVEffectRep_Dense.probability'],
         bounds='all parameter vectors in [-1,1]', **COMMON)
def vecs(cx):
    """vectors are the defined ones; the constructor does not share the caller's array"""
    sp = VECS[cx.p['v']]
    t = cx.p['t']
    op = sp.build(t)
    op.allocate_gpindices(0, None)
    cx.check(op.num_params() == sp.n, "number of parameters")
    v = cx.reals('v', sp.n)
    op.from_vector(cx.array(list(v), (sp.n,), 'f'))
    want = sp.ref(v)
    n = len(want)
    cx.check_close(list(op.to_vector()), v, "vector reads back")
    cx.check_shape(op.todense(), (n,), "vector")
    cx.check_close(list(op.todense()), want, "vector")
    if t == 'prep': cx.check_close(list(op._rep.todense()), want, "representation")
    else:
        x, st = states(cx, op, n)
        p = op._rep.probability(st)
        amp = sum((a.conjugate() if isinstance(a, (complex,)) or op._evotype == 'statevec' else a) * b for a, b in zip(want, x))
        if op._evotype == 'statevec': cx.check_close([p], [(amp * amp.conjugate()).real], "probability")
        else: cx.check_close([p], [amp], "probability")
    if sp.n:
        w = cx.reals('w', sp.n)
        cp = op.copy()
        if not cx.p['v'].startswith('prod'): cp.allocate_gpindices(0, None)
        cp.from_vector(cx.array(list(w), (sp.n,), 'f'))
        cx.check_close(list(cp.todense()), sp.ref(w), "copy")
        cx.check_close(list(op.todense()), want, "original after changing a copy")
    if cx.p['v'] in ('full', 'fullc', 'tp', 'static'):
        cls = type(op)
        kd = 'c' if cx.p['v'] == 'fullc' else 'f'
        if cx.p['v'] == 'tp': want[0] = S2
        for shape in ((n,), (n, 1)):
            src = cx.array(list(want), shape, kd)
            new = cls(src) if cx.p['v'] == 'tp' else cls(src, op._evotype, t)
            cx.check_shape(src, shape, "caller's array keeps its shape")
            cx.check_close(list(new.todense()), want, "vector from an array")
            src[1] = 7.
            cx.check_close(list(new.todense()), want, "vector after the caller changes its array")
            new2 = cls(new) if cx.p['v'] == 'tp' else cls(new, op._evotype, t)
            cx.check_close(list(new2.todense()), want, "vector from a vector object")
        if sp.n:
            y = cx.reals('y', sp.n)
            wy = sp.ref(y)
            op.set_value(cx.array(list(wy), (n,), kd))
            cx.check_close(list(op.todense()), wy, "set by value")
            cx.check_close(list(op.to_vector()), y, "parameters after set by value")
        if cx.p['v'] == 'tp':
            e = cx.real('e', .01, 1)
            cx.check_raises(lambda: op.set_value(cx.array([S2 + e] + list(y), (n,), 'f')), "wrong first element is refused", ValueError)

            def poke(): op[0, 0] = 1.
            cx.check_raises(poke, "writing the protected element is refused", ValueError)
            cx.check_close(list(op.todense()), wy, "unchanged by refused writes")
    if cx.p['v'] in ('full', 'tp'):
        am = cx.reals('am', n - 1)
        cur = list(op.todense())
        op.depolarize(am)
        cx.check_close(list(op.todense()), [cur[0]] + [(1 - a) * c for a, c in zip(am, cur[1:])], "depolarize")


@harness(params=[dict(s=s) for s in range(3)], kinds='fc', encodes=['CPTPSPAMVec.__init__', 'CPTPSPAMVec._set_params_from_vector', 'CPTPSPAMVec.set_value', 'CPTPSPAMVec.from_vector', 'CPTPSPAMVec._construct_vector'],
         bounds='one qubit: all parameter vectors (norm at least 1/10), selected concrete starting states', **COMMON)
def cptp(cx):
    """a CPTP state is (L L^dag)/tr for the parameters' lower triangular L; creation and set_value give the state asked for"""
    start = [np.array([S2, 0, 0, S2]), np.array([S2, .25, -.125, .5 * S2]), np.array([S2, 0, 0, 0])][cx.p['s']]
    # eigen-decomposition: concrete starting states only
    op = SV.CPTPSPAMVec(start, 'pp')
    cx.check_close(list(op.todense()), list(start), "created state")
    nxt = np.array([S2, 0.125, .25, -.25])
    op.set_value(nxt)
    cx.check_close(list(op.todense()), list(nxt), "state set by value")
    v = cx.reals('v', 4)
    cx.assume(sum(x * x for x in v) >= .01)
    op.from_vector(cx.array(list(v), (4,), 'f'))
    cx.check_close(list(op.to_vector()), v, "vector reads back")
    l = [[v[0], 0.], [v[2] + 1j * v[1], v[3]]]
    rho = mm(l, [[v[0], v[2] - 1j * v[1]], [0., v[3]]])
    N = sum(x * x for x in v)
    coef = [(rho[0][0] + rho[1][1]), (rho[0][1] + rho[1][0]), (1j * (rho[0][1] - rho[1][0])), (rho[0][0] - rho[1][1])]
    cx.check_close([x * N for x in op.todense()], [(c.real if hasattr(c, 'real') else c) * S2 for c in coef], "state of the parameters")


# ---- POVMs

def povm_of(kind, effects):
    return {'un': PV.UnconstrainedPOVM, 'tp': PV.TPPOVM}[kind](effects)


def eff(i, n): return conc(20 + i, n)


@harness(params=[dict(k=k, m=m, n=n) for k in ('un', 'tp') for m in (2, 3) for n in (2, 4)], kinds='f',
         encodes=['_BasePOVM.__init__', '_BasePOVM.from_vector', '_BasePOVM.to_vector', '_BasePOVM.simplify_effects', '_BasePOVM.__setitem__', 'ComplementSPAMVec._construct_vector', '_BasePOVM.depolarize'],
         bounds='all parameters in [-1,1], 2-3 outcomes', **COMMON)
def povms(cx):
    """effects are the parameters; the complement effect keeps the total; simplified effects follow the same parameters"""
    k, m, n = cx.p['k'], cx.p['m'], cx.p['n']
    raw = [eff(i, n) for i in range(m)]
    lb = ['a', 'b', 'c'][:m]
    pv = povm_of(k, [(l, SV.FullSPAMVec(e, 'auto', 'effect') if (k == 'un' or i < m - 1) else np.array(e)[:, None]) for i, (l, e) in enumerate(zip(lb, raw))])
    np_ = n * (m if k == 'un' else m - 1)
    cx.check(pv.num_params() == np_, "number of parameters")
    tot = [float(sum(e[i] for e in raw)) for i in range(n)]
    for i in range(m): cx.check_close(list(pv[lb[i]].todense()), [float(x) for x in raw[i]], "initial effect")
    pv.set_gpindices(slice(3, 3 + np_), None)

    def ref(v):
        es = [list(v[i * n:(i + 1) * n]) for i in range(len(v) // n)]
        if k == 'tp': es.append([t - sum(e[i] for e in es) for i, t in enumerate(tot)])
        return es
    v, x = cx.reals('v', np_), cx.reals('x', n)
    st = RL.DMStateRep(cx.array(list(x), (n,), 'f'))
    sim = pv.simplify_effects('P')
    cx.check(list(sim.keys()) == ['P_' + l for l in lb], "labels of simplified effects")

    def compare(p, es, msg):
        for l, e in zip(lb, es):
            cx.check_close(list(p[l].todense()), e, msg)
            cx.check_close([p[l]._rep.probability(st)], [sum(a * b for a, b in zip(e, x))], msg + ': probability')
    pv.from_vector(cx.array(list(v), (np_,), 'f'))
    cx.check_close(list(pv.to_vector()), v, "vector reads back")
    compare(pv, ref(v), "effects")
    for l, e in zip(lb, raw): cx.check_close(list(sim['P_' + l].todense()), [float(y) for y in e], "simplified effects are separate")
    glob = [0.] * 3 + list(v) + [0.] * 2
    for e in sim.values():
        inds = e.gpindices
        g = cx.array(list(glob), (len(glob),), 'f')
        e.from_vector(g[inds])
    for l, e in zip(lb, ref(v)):
        cx.check_close(list(sim['P_' + l].todense()), e, "simplified effects from the model's vector")
    cp = pv.copy()
    w = cx.reals('w', np_)
    cp.from_vector(cx.array(list(w), (np_,), 'f'))
    compare(cp, ref(w), "effects of a copy")
    compare(pv, ref(v), "effects after changing a copy")
    am = cx.reals('am', n - 1)
    dep = lambda e: [e[0]] + [(1 - a) * c for a, c in zip(am, e[1:])]
    es = [dep(e) for e in ref(v)[:m if k == 'un' else m - 1]]
    if k == 'tp': es.append([t - sum(e[i] for e in es) for i, t in enumerate(tot)])
    pv.depolarize(am)
    compare(pv, es, "depolarized effects")
    u = cx.reals('u', n)
    pv['a'] = SV.FullSPAMVec(cx.array(list(u), (n,), 'f'), 'auto', 'effect')
    es[0] = u
    if k == 'tp': es[-1] = [t - sum(e[i] for e in es[:-1]) for i, t in enumerate(tot)]
    compare(pv, es, "effects after replacing one")
    cx.check(pv.num_params() == np_, "number of parameters after replacing one")
    pv.from_vector(cx.array(list(v), (np_,), 'f'))
    compare(pv, ref(v), "effects after replacing one and setting the vector")
    if k == 'tp':
        def bad(): pv[lb[-1]] = SV.FullSPAMVec(cx.array(list(u), (n,), 'f'), 'auto', 'effect')
        cx.check_raises(bad, "the complement cannot be assigned", KeyError)


def fpovm(kind, n, m, seed, lens=1):
    raw = [eff(seed + i, n) for i in range(m)]
    lb = [('0', '1', '2')[i] * lens for i in range(m)]
    return povm_of(kind, [(l, SV.FullSPAMVec(e, 'auto', 'effect') if (kind == 'un' or i < m - 1) else np.array(e)[:, None]) for i, (l, e) in enumerate(zip(lb, raw))]), raw


TPS = {'tt': [('tp', 2, 2, 0), ('tp', 2, 2, 5)], 'tu': [('tp', 2, 2, 0), ('un', 3, 2, 5)], 'ut3': [('un', 2, 3, 0), ('tp', 2, 3, 5)], 'u': [('un', 4, 2, 0)],
       'ttt': [('tp', 2, 2, 0), ('un', 2, 2, 3), ('tp', 2, 2, 5)], 'comp': [('tp', 4, 2, 0), ('cb', 4, 2, 0)]}


@harness(params=[dict(k=k) for k in TPS], kinds='f', encodes=['TensorProdPOVM.__init__', 'TensorProdPOVM.from_vector', 'TensorProdPOVM.to_vector', 'TensorProdPOVM.simplify_effects', 'TensorProdPOVM.__getitem__',
         'TensorProdSPAMVec.from_vector', 'TensorProdSPAMVec.todense', 'DMEffectRep_TensorProd.probability', 'TensorProdPOVM.depolarize', 'POVM.acton'], bounds='all parameters in [-1,1], up to three factors', **COMMON)
def tensor(cx):
    """tensor-product effects are the products of the factors' effects, before and after every parameter change"""
    fac = TPS[cx.p['k']]
    built = [fpovm(*f) if f[0] != 'cb' else (PV.ComputationalBasisPOVM(1, 'densitymx'), None) for f in fac]
    pv = PV.TensorProdPOVM([b[0] for b in built])
    ns = [0 if f[0] == 'cb' else f[1] * (f[2] - (f[0] == 'tp')) for f in fac]
    N, D = sum(ns), int(np.prod([f[1] for f in fac]))
    cx.check(pv.num_params() == N, "number of parameters")
    keys = [''.join(k) for k in itertools.product(*[[str(i) for i in range(f[2])] for f in fac])]
    cx.check(list(pv.keys()) == keys and len(pv) == len(keys), "outcome labels")
    pv.set_gpindices(slice(2, 2 + N), None)

    def ref(v, dep=None):
        out, off = [], 0
        for f, n, (_, raw) in zip(fac, ns, built):
            if f[0] == 'cb': out.append([[S2, 0., 0., S2], [S2, 0., 0., -S2]]); continue
            es = [list(v[off + i * f[1]:off + (i + 1) * f[1]]) for i in range(n // f[1])]
            if dep is not None: es = [[e[0]] + [(1 - dep) * c for c in e[1:]] for e in es]
            if f[0] == 'tp': es.append([float(sum(e[i] for e in raw)) - sum(e[i] for e in es) for i in range(f[1])])
            off += n
            out.append(es)
        r = {}
        for c in itertools.product(*[range(f[2]) for f in fac]):
            vec = [1.]
            for o, i in zip(out, c): vec = kronv(vec, o[i])
            r[''.join(map(str, c))] = vec
        return r
    x = cx.reals('x', D)
    st = RL.DMStateRep(cx.array(list(x), (D,), 'f'))

    def compare(p, want, msg):
        for key in keys:
            e = p[key]
            cx.check_close(list(e.todense()), want[key], msg)
            cx.check_close([e._rep.probability(st)], [sum(a * b for a, b in zip(want[key], x))], msg + ': probability')
    v, w = cx.reals('v', N), cx.reals('w', N)
    pv.from_vector(cx.array(list(v), (N,), 'f'))
    cx.check_close(list(pv.to_vector()), v, "vector reads back")
    compare(pv, ref(v), "effects")
    pv.from_vector(cx.array(list(w), (N,), 'f'))
    compare(pv, ref(w), "effects after the parameters change")
    sim = pv.simplify_effects('M')
    cx.check(list(sim.keys()) == ['M_' + k for k in keys], "labels of simplified effects")
    glob = [0.] * 2 + list(v) + [0.]
    for e in sim.values():
        e.from_vector(cx.array(list(glob), (len(glob),), 'f')[e.gpindices])
    compare({k[2:]: e for k, e in sim.items()}, ref(v), "simplified effects from the model's vector")
    compare(pv, ref(w), "effects after changing simplified ones")
    if all(f[0] != 'cb' for f in fac):
        pv.depolarize(0.25)
        compare(pv, ref(w, .25), "depolarized effects")
    cx.check_raises(lambda: pv['9' * len(fac)], "unknown outcome label", KeyError)


@harness(params=[dict(q=q) for q in (1, 2, 3)], kinds='fc', encodes=['ComputationalBasisPOVM.__getitem__', 'ComputationalSPAMVec.todense', 'DMEffectRep_Computational.probability', 'DMEffectRep_Computational.todense',
         'SVEffectRep_Computational.probability', 'SVEffectRep_Computational.amplitude'], bounds='all state vectors in the box, up to three qubits', **COMMON)
def comput(cx):
    """computational effects pick out the right component in order (first qubit most significant) for states and density matrices"""
    q = cx.p['q']
    x = cx.reals('x', 4**q)
    st = RL.DMStateRep(cx.array(list(x), (4**q,), 'f'))
    pv = PV.ComputationalBasisPOVM(q, 'densitymx')
    ks = [''.join(k) for k in itertools.product('01', repeat=q)]
    cx.check(list(pv.keys()) == ks, "outcome labels")
    got = pv.acton(SV.StaticSPAMVec(cx.array(list(x), (4**q,), 'f'), 'densitymx', 'prep'))
    for k in ks:
        want = [1.]
        for c in k: want = kronv(want, [S2, 0., 0., S2 if c == '0' else -S2])
        p = sum(a * b for a, b in zip(want, x))
        cx.check_close([pv[k]._rep.probability(st), got[k]], [p, p], "probability of a density matrix")
        cx.check_close(list(pv[k].todense()), want, "dense effect")
        cx.check_close(list(SV.ComputationalSPAMVec([int(c) for c in k], 'densitymx', 'prep')._rep.todense()), want, "prepared state")
    re, im = cx.reals('re', 2**q), cx.reals('im', 2**q)
    sv = RL.SVStateRep(cx.array([a + 1j * b for a, b in zip(re, im)], (2**q,), 'c'))
    ps = PV.ComputationalBasisPOVM(q, 'statevec')
    for i, k in enumerate(ks):
        cx.check_close([ps[k]._rep.probability(sv)], [re[i] * re[i] + im[i] * im[i]], "probability of a pure state")
        cx.check_close([ps[k]._rep.amplitude(sv)], [re[i] + 1j * im[i]], "amplitude of a pure state")
        cx.check_close(list(ps[k].todense()), [1. if j == i else 0. for j in range(2**q)], "dense pure effect")


@harness(params=[dict(k=k, keep=kp) for k in ('un', 'tp') for kp in ((0,), (1,), (0, 2), (1, 2))], kinds='f', encodes=['MarginalizedPOVM.__init__', 'MarginalizedPOVM.__getitem__', 'MarginalizedPOVM.marginalize_effect_label'],
         bounds='three-character outcome labels, all effects with entries in [-1,1]', **COMMON)
def marginal(cx):
    """a marginalised effect is the sum of the effects that agree on the kept characters, and the original POVM is untouched"""
    n, keep = 2, cx.p['keep']
    ks = [''.join(k) for k in itertools.product('01', repeat=3)]
    es = {k: cx.reals('e' + k, n) for k in ks}
    items = [(k, SV.FullSPAMVec(cx.array(list(es[k]), (n,), 'f'), 'auto', 'effect')) for k in ks]
    if cx.p['k'] == 'tp': items[-1] = (ks[-1], cx.array(list(es[ks[-1]]), (n, 1), 'f'))
    pv = povm_of(cx.p['k'], items)
    m = PV.MarginalizedPOVM(pv, ('A', 'B', 'C'), tuple('ABC'[i] for i in keep))
    mk = [''.join(k) for k in itertools.product('01', repeat=len(keep))]
    cx.check(sorted(m.keys()) == mk and len(m) == len(mk), "marginal labels")
    for k in mk:
        want = [sum(es[f][i] for f in ks if all(f[j] == c for j, c in zip(keep, k))) for i in range(n)]
        cx.check_close(list(m[k].todense()), want, "marginal effect")
        cx.check_close(list(m[k].todense()), want, "marginal effect read again")
    for k in ks: cx.check_close(list(pv[k].todense()), es[k], "original effect")


# ---- instruments

@harness(params=[dict(k=k, m=m) for k in ('un', 'tp') for m in (1, 2, 3)], kinds='f', encodes=['Instrument.from_vector', 'Instrument.to_vector', 'Instrument.simplify_operations', 'TPInstrument.__init__', 'TPInstrument.from_vector',
         'TPInstrument.simplify_operations', 'TPInstrumentOp._construct_matrix', 'TPInstrumentOp.from_vector', 'Instrument.depolarize'], bounds='all parameters in [-1,1], 1-3 elements of dimension 2', **COMMON)
def instr(cx):
    """instrument elements are the parameters; a TP instrument's elements always add up to a trace-preserving map"""
    k, m, n = cx.p['k'], cx.p['m'], 2
    mats = [conc(30 + i, n, n) for i in range(m)]
    if k == 'tp':
        mats[-1] = mats[-1] * 0 + tpmx(3, n) - sum(mats[:-1])
    lb = ['p', 'q', 'r'][:m]
    ins = (IN.Instrument if k == 'un' else IN.TPInstrument)([(l, np.array(M)) for l, M in zip(lb, mats)])
    N = m * 4 if k == 'un' else 2 + 4 * (m - 1)
    cx.check(ins.num_params() == N, "number of parameters")
    for l, M in zip(lb, mats): check_mx(cx, ins[l].todense(), cl(M), "initial element")
    ins.set_gpindices(slice(4, 4 + N), None)

    def ref(v):
        if k == 'un': return [rows(v[4 * i:4 * i + 4], 2) for i in range(m)]
        T = [[1., 0.], list(v[:2])]
        out = [add(T, rows(v[2 + 4 * i:6 + 4 * i], 2)) for i in range(m - 1)]
        return out + [add(T, *[sc(-1, o) for o in out])]
    v, w = cx.reals('v', N), cx.reals('w', N)

    def compare(get, want, msg):
        for l, M in zip(lb, want): check_mx(cx, get(l).todense(), M, msg)
    sim = ins.simplify_operations('I')
    cx.check(list(sim.keys()) == ['I_' + l for l in lb], "labels of simplified elements")
    ins.from_vector(cx.array(list(v), (N,), 'f'))
    cx.check_close(list(ins.to_vector()), v, "vector reads back")
    compare(lambda l: ins[l], ref(v), "elements")
    compare(lambda l: sim['I_' + l], [cl(M) for M in mats], "simplified elements are separate")
    glob = [0.] * 4 + list(w) + [0.]
    for e in sim.values(): e.from_vector(cx.array(list(glob), (len(glob),), 'f')[e.gpindices])
    compare(lambda l: sim['I_' + l], ref(w), "simplified elements from the model's vector")
    compare(lambda l: ins[l], ref(v), "elements after changing simplified ones")
    cp = ins.copy()
    cp.from_vector(cx.array(list(w), (N,), 'f'))
    compare(lambda l: cp[l], ref(w), "elements of a copy")
    compare(lambda l: ins[l], ref(v), "elements after changing a copy")
    am = cx.real('am')
    ins.depolarize([am])
    compare(lambda l: ins[l], [[r[0], [(1 - am) * y for y in r[1]]] for r in ref(v)], "depolarized elements")


# ---- index bookkeeping of composite members

@harness(params=[dict(s=s, st=st, d=d) for s in range(6) for st in (0, 3) for d in (0, 1)], kinds='f', encodes=['ModelMember.allocate_gpindices', 'ModelMember.set_gpindices', '_compose_gpindices', '_decompose_gpindices', 'ComposedOp.append', 'ComposedOp.remove'],
         bounds='shared factors in nested compositions, all parameter values in [-1,1]', **COMMON)
def shared(cx):
    """factors shared between composite gates share their parameters exactly once, wherever they appear"""
    start = cx.p['st']

    class Par:
        def _mark_for_rebuild(self, x): pass
        dirty = False
        def _obj_refcount(self, o): return 1
    par = Par()
    A, Bq, C = [OP.FullDenseOp(conc(i, 2, 2)) for i in (1, 2, 3)]
    Comp = OP.ComposedDenseOp if cx.p['d'] else OP.ComposedOp
    inner = Comp([A, Bq])
    shapes = [[A, Bq, A], [inner, C], [inner, A], [C, inner, C], [OP.ExponentiatedOp(A, 2), Bq, A], [Bq, inner, A]]
    op = Comp(shapes[cx.p['s']])
    N = op.allocate_gpindices(start, par)
    leaves = [g for g in (A, Bq, C) if g.gpindices is not None]
    cx.check(N == 4 * len(leaves) == op.num_params(), "each shared factor is counted once")
    v = cx.reals('v', N)
    op.from_vector(cx.array(list(v), (N,), 'f'))
    cx.check_close(list(op.to_vector()), v, "vector reads back")
    mats = {}
    for g in leaves:
        i = g.gpindices.start - start
        mats[id(g)] = rows(v[i:i + 4], 2)
        check_mx(cx, g.todense(), mats[id(g)], "factor")

    def val(o):
        if id(o) in mats: return mats[id(o)]
        if isinstance(o, OP.ExponentiatedOp): return mm(val(o.exponentiated_op), val(o.exponentiated_op))
        r = None
        for f in o.factorops: r = val(f) if r is None else mm(val(f), r)
        return r
    check_mx(cx, op.todense(), val(op), "composite of shared factors")
    x = cx.reals('x', 2)
    st = RL.DMStateRep(cx.array(list(x), (2,), 'f'))
    cx.check_close(list(op._rep.acton(st).todense()), mv(val(op), x), "action of the composite")
    # shifting all indices keeps the sharing
    op.set_gpindices(slice(start + 5, start + 5 + N), par)
    w = cx.reals('w', N)
    op.from_vector(cx.array(list(w), (N,), 'f'))
    for g in leaves:
        i = g.gpindices.start - start - 5
        mats[id(g)] = rows(w[i:i + 4], 2)
    cx.check_close(list(op.to_vector()), w, "vector reads back after re-indexing")
    check_mx(cx, op.todense(), val(op), "composite after re-indexing")
    D = OP.StaticDenseOp(conc(9, 2, 2))
    mats[id(D)] = cl(conc(9, 2, 2))
    op.append(D, D)
    check_mx(cx, op.todense(), val(op), "composite after appending factors")
    cx.check_close(list(op._rep.acton(st).todense()), mv(val(op), x), "action after appending factors")
    op.remove(0)
    check_mx(cx, op.todense(), val(op), "composite after removing a factor")
    cx.check_close(list(op._rep.acton(st).todense()), mv(val(op), x), "action after removing a factor")


class El:
    """stub gauge element: transformation matrix and its inverse"""
    def __init__(self, S, Si): self.S, self.Si = S, Si
    def get_transform_matrix(self): return self.S
    def get_transform_matrix_inverse(self): return self.Si


@harness(params=[dict(k=k) for k in ('full', 'comp', 'compd', 'instr', 'tpinstr', 'povm', 'vec')], kinds='f', encodes=['LinearOperator.transform', 'ComposedOp.transform', 'Instrument.transform', 'TPInstrument.transform', '_BasePOVM.transform', 'SPAMVec.transform'],
         bounds='all matrices and all transformations of dimension 2 with entries in [-1,1]', **COMMON)
def transform(cx):
    """a gauge transformation S takes G to S^-1 G S, states to S^-1 rho and effects to S^T E, and the parameters follow"""
    k = cx.p['k']
    S, Si = cx.realmx('S', 2, 2), cx.realmx('Si', 2, 2)
    s, si = [[[M[i, j] for j in range(2)] for i in range(2)] for M in (S, Si)]
    if k == 'tpinstr':
        S = cx.array([1., 0.] + s[1], (2, 2), 'f'); s[0] = [1., 0.]
        Si = cx.array([1., 0.] + si[1], (2, 2), 'f'); si[0] = [1., 0.]
    prod = mm(s, si)
    for i in range(2):
        for j in range(2): cx.assume(prod[i][j] == (1 if i == j else 0))
    el = El(S, Si)
    conj = lambda g: mm(si, mm(g, s))
    if k in ('full', 'comp', 'compd'):
        sp = {'full': full(1, 2), 'comp': composed([full(1, 2), full(2, 2)]), 'compd': composed([full(1, 2), full(2, 2)], True)}[k]
        op = alloc(sp.build())
        v = cx.reals('v', sp.n)
        op.from_vector(cx.array(list(v), (sp.n,), 'f'))
        op.transform(el)
        want = conj(sp.ref(v)) if k == 'full' else None
        vec = sum([sum(conj(rows(v[i:i + 4], 2)), []) for i in range(0, sp.n, 4)], [])
        cx.check_close(list(op.to_vector()), vec, "parameters follow")
        check_mx(cx, op.todense(), sp.ref(vec), "transformed gate")
        x, st = states(cx, op, 2)
        cx.check_close(list(op._rep.acton(st).todense()), mv(sp.ref(vec), x), "action of the transformed gate")
    elif k in ('instr', 'tpinstr'):
        mats = [conc(30 + i, 2, 2) for i in range(3)]
        if k == 'tpinstr': mats[-1] = tpmx(3, 2) - sum(mats[:-1])
        ins = (IN.Instrument if k == 'instr' else IN.TPInstrument)([(l, np.array(M)) for l, M in zip('pqr', mats)])
        ins.set_gpindices(slice(0, ins.num_params()), None)
        v = cx.reals('v', ins.num_params())
        ins.from_vector(cx.array(list(v), (len(v),), 'f'))
        before = [[[ins[l].todense()[i, j] for j in range(2)] for i in range(2)] for l in 'pqr']
        ins.transform(el)
        for l, b in zip('pqr', before): check_mx(cx, ins[l].todense(), conj(b), "transformed element")
        p = ins.to_vector()
        ins.from_vector(cx.array(list(p), (len(v),), 'f'))
        for l, b in zip('pqr', before): check_mx(cx, ins[l].todense(), conj(b), "transformed element from its parameters")
    elif k == 'povm':
        pv = povm_of('un', [(l, SV.FullSPAMVec(eff(i, 2), 'auto', 'effect')) for i, l in enumerate('ab')])
        v = cx.reals('v', 4)
        pv.from_vector(cx.array(list(v), (4,), 'f'))
        pv.transform(el)
        for i, l in enumerate('ab'): cx.check_close(list(pv[l].todense()), mv(tr(s), v[2 * i:2 * i + 2]), "transformed effect")
    else:
        v = cx.reals('v', 2)
        for t, M in (('prep', si), ('effect', tr(s))):
            sv = SV.FullSPAMVec(cx.array(list(v), (2,), 'f'), 'densitymx', t)
            sv.transform(el, t)
            cx.check_close(list(sv.todense()), mv(M, v), "transformed %s" % t)
            cx.check_close(list(sv.to_vector()), mv(M, v), "parameters of a transformed %s" % t)
