"""P14: analytic derivatives are the derivatives of what is predicted (members; objects/matrixforwardsim, forwardsim; model)."""
import copy
import itertools
import numpy as np
from symex.harness import harness, land, lor, lnot
from pygsti.objects import operation as OP
from pygsti.objects import spamvec as SV
from pygsti.objects import povm as PV
from pygsti.objects import instrument as IN
from checks import p15
from checks.p15 import OPS, VECS, MODS as M15, conc, mm, mv, Spec, rows
from pygsti.objects import Circuit
from pygsti.objects import label as L
from checks import simmodel as SM
from checks.simmodel import MODELS, params
from checks.jet import Jet, jets, val, d1, d2

MODS = M15
META = {'assumptions': ['members are built from concrete starting values; every parameter is then a symbolic real; reference derivatives by forward differentiation of the definition',
                        'map-simulator derivatives are finite differences by design and are checked as such in P13']}
COMMON = dict(modules=MODS, limit=300)


# Known finding: a product of two or more parameterised factors, each linear in its parameters, claims has_nonzero_hessian() == False (a stable test
# expects that), so the simulators leave its second derivatives out.  Everything else about Hessians is checked with this one answer put right.
def _corrected(cls, factors):
    orig = cls.has_nonzero_hessian

    def has_nonzero_hessian(self):
        fs = factors(self)
        return orig(self) or (sum(f.num_params() > 0 for f in fs) > 1 and not any(f.has_nonzero_hessian() for f in fs))
    cls.has_nonzero_hessian = has_nonzero_hessian
    return orig


_orig_op = _corrected(OP.ComposedOp, lambda s: s.factorops)
_orig_sv = _corrected(SV.TensorProdSPAMVec, lambda s: [f if s._prep_or_effect == 'prep' else f[s.effectLbls[i]] for i, f in enumerate(s.factors)])


def known():
    a, b = [OP.FullDenseOp(np.identity(2)) for _ in range(2)]
    c = p15.alloc(OP.ComposedDenseOp([a, b]))
    out = []
    if not _orig_op(c):
        out.append('ComposedOp.has_nonzero_hessian is False for a product of two full gates, whose Hessian does not vanish: Hessians of models with such gates lack these terms')
    v = SV.TensorProdSPAMVec('prep', [SV.FullSPAMVec(np.ones(2)) for _ in range(2)])
    if not _orig_sv(v):
        out.append('TensorProdSPAMVec.has_nonzero_hessian is False for a product of two full vectors, whose Hessian does not vanish: Hessians of models with such vectors lack these terms')
    return out


META['known_findings_cb'] = known


def filters(n):
    """parameter selections: none, single, several out of order, empty"""
    out = [None]
    if n >= 1: out += [[n - 1]]
    if n >= 3: out += [[2, 0]]
    if n >= 2: out += [list(range(1, n))]
    return out + [[]]


def check_derivs(cx, op, ref, n, msg, hess=True, fl=None):
    """`ref`: flat list of jets (or constants)"""
    N = len(ref)
    for f in (filters(n) if fl is None else fl):
        cols = list(range(n)) if f is None else f
        D = op.deriv_wrt_params(f)
        cx.check_shape(D, (N, len(cols)), "%s: shape of the derivative, selection %r" % (msg, f))
        cx.check_close([D[k, c] for k in range(N) for c in range(len(cols))], [d1(r, i) for r in ref for i in cols], "%s: derivative, selection %r" % (msg, f))
    nz = op.has_nonzero_hessian()
    if not nz:
        cx.check_close([d2(r, i, j) for r in ref for i in range(n) for j in range(i, n)], [0.] * (N * n * (n + 1) // 2), "%s: second derivatives vanish as stated" % msg)
    if hess:
        pairs = [(None, None), ([n - 1], None), (None, [n - 1]), ([0], [n - 1])] if n else [(None, None)]
        if n >= 3: pairs.append(([2, 0], [1, 2]))
        for f, g in pairs:
            a, b = list(range(n)) if f is None else f, list(range(n)) if g is None else g
            H = op.hessian_wrt_params(f, g)
            cx.check_shape(H, (N, len(a), len(b)), "%s: shape of the Hessian, selections %r %r" % (msg, f, g))
            cx.check_close([H[k, i, j] for k in range(N) for i in range(len(a)) for j in range(len(b))], [d2(r, i, j) for r in ref for i in a for j in b], "%s: Hessian, selections %r %r" % (msg, f, g))


SKIP = {'eigen'}
THOR = {'stoch2', 'emb210', 'emb44', 'embmix2', 'comp4', 'emb3q4'}
# (stochastic and depolarizing gates do not implement derivatives: they raise NotImplementedError)
DIFF_OPS = [k for k in OPS if k not in SKIP and not k.startswith(('exp', 'stoch', 'depol'))]


@harness(params=[dict(op=k) for k in DIFF_OPS if k not in THOR], thorough_params=[dict(op=k) for k in DIFF_OPS if k in THOR], kinds='fc',
         encodes=['%s.%s' % (c, m) for c in ('LinearOperator', 'StaticDenseOp', 'FullDenseOp', 'TPDenseOp', 'LinearlyParamDenseOp', 'ComposedOp', 'EmbeddedOp')
                  for m in ('deriv_wrt_params', 'hessian_wrt_params', 'has_nonzero_hessian')], bounds='all parameter vectors in [-1,1]; all parameters or selected ones; dimensions up to 16', **COMMON)
def ops(cx):
    """derivative and Hessian of a gate's matrix are those of its definition, in parameter order, also for selected parameters"""
    sp = OPS[cx.p['op']]
    op = p15.alloc(sp.build())
    v = cx.reals('v', sp.n)
    op.from_vector(cx.array(list(v), (sp.n,), 'f'))
    ref = sum(sp.ref(jets(v)), [])
    check_derivs(cx, op, ref, sp.n, "gate", hess=sp.n <= 20)
    if not sp.n: cx.one(cx.bit('b'))


@harness(params=[dict(k=k) for k in ('real', 'pair')], kinds='fc', encodes=['EigenvalueParamDenseOp.deriv_wrt_params', 'EigenvalueParamDenseOp.has_nonzero_hessian'], bounds='all parameter vectors in [-1,1]', **COMMON)
def eigen(cx):
    """the derivative of an eigenvalue-parameterised gate is the change of its matrix per unit change of each parameter (it is linear)"""
    M = np.array([[1, 0, 0, 0], [0, .5, 0, 0], [0, 0, 0, -.5], [0, 0, .5, 0]]) if cx.p['k'] == 'pair' else np.array([[1, 0, 0], [.125, .5, .25], [0, 0, -.25]])
    op = p15.alloc(OP.EigenvalueParamDenseOp(M))
    n, d = op.num_params(), len(M)
    v = cx.reals('v', n)

    def at(w):
        op.from_vector(cx.array(list(w), (n,), 'f'))
        return [op.todense()[i, j] for i in range(d) for j in range(d)]
    base = at(v)
    steps = [at([x + (1. if i == k else 0.) for i, x in enumerate(v)]) for k in range(n)]
    at(v)
    for f in filters(n):
        cols = list(range(n)) if f is None else f
        D = op.deriv_wrt_params(f)
        cx.check_shape(D, (d * d, len(cols)), "shape")
        cx.check_close([D[k, c] for k in range(d * d) for c in range(len(cols))], [steps[i][k] - base[k] for k in range(d * d) for i in cols], "derivative, selection %r" % (f,))
    cx.check(not op.has_nonzero_hessian(), "linear gate")


@harness(params=[dict(v=k) for k in VECS], kinds='fc', encodes=['%s.%s' % (c, m) for c in ('SPAMVec', 'StaticSPAMVec', 'FullSPAMVec', 'TPSPAMVec', 'TensorProdSPAMVec') for m in ('deriv_wrt_params', 'hessian_wrt_params', 'has_nonzero_hessian')],
         bounds='all parameter vectors in [-1,1]; all parameters or selected ones', **COMMON)
def vecs(cx):
    """derivative and Hessian of a state or effect vector"""
    sp = VECS[cx.p['v']]
    op = sp.build('prep')
    op.allocate_gpindices(0, None)
    v = cx.reals('v', sp.n)
    op.from_vector(cx.array(list(v), (sp.n,), 'f'))
    check_derivs(cx, op, sp.ref(jets(v)), sp.n, "vector")
    if not sp.n: cx.one(cx.bit('b'))


@harness(params=[dict(f=f) for f in (0, 1, 2)], kinds='fc', encodes=['CPTPSPAMVec.deriv_wrt_params'], bounds='all parameter vectors in [-1,1] of norm at least 1/2', **COMMON)
def cptp(cx):
    """derivative of a CPTP state"""
    op = SV.CPTPSPAMVec(np.array([p15.S2, 0, 0, p15.S2]), 'pp')
    v = cx.reals('v', 4)
    cx.assume(sum(x * x for x in v) >= .25)
    op.from_vector(cx.array(list(v), (4,), 'f'))
    w = jets(v)
    l = [[w[0], 0.], [w[2] + w[1] * 1j, w[3]]]
    ld = [[w[0], w[2] - w[1] * 1j], [0., w[3]]]
    rho = mm(l, ld)
    N = sum(x * x for x in w)
    inv = N.inverse()
    S = p15.S2
    ref = [(rho[0][0] + rho[1][1]) * inv * S, (rho[0][1] + rho[1][0]) * inv * S, ((rho[0][1] - rho[1][0]) * 1j) * inv * S, (rho[0][0] - rho[1][1]) * inv * S]
    f = [None, [2, 0], [3]][cx.p['f']]
    cols = list(range(4)) if f is None else f
    D = op.deriv_wrt_params(f)
    cx.check_shape(D, (4, len(cols)), "shape")
    N2 = val(N) * val(N)
    for k in range(4):
        for c, i in enumerate(cols):
            x = d1(ref[k], i)
            cx.check_close([D[k, c] * N2], [(x.real if hasattr(x, 'real') else x) * N2], "derivative of element %d by parameter %d" % (k, i))


@harness(params=[dict(k=k, m=m) for k in ('un', 'tp') for m in (2, 3)], kinds='fc', encodes=['ComplementSPAMVec.deriv_wrt_params', 'ComplementSPAMVec.has_nonzero_hessian', '_BasePOVM.simplify_effects'],
         bounds='all parameters in [-1,1]', **COMMON)
def effects(cx):
    """derivatives of a POVM's effects, the complement included, by the POVM's parameters"""
    n, k, m = 2, cx.p['k'], cx.p['m']
    raw = [p15.eff(i, n) for i in range(m)]
    lb = ['a', 'b', 'c'][:m]
    pv = p15.povm_of(k, [(l, SV.FullSPAMVec(e, 'auto', 'effect') if (k == 'un' or i < m - 1) else np.array(e)[:, None]) for i, (l, e) in enumerate(zip(lb, raw))])
    npar = pv.num_params()
    pv.set_gpindices(slice(0, npar), None)
    v = cx.reals('v', npar)
    pv.from_vector(cx.array(list(v), (npar,), 'f'))
    w = jets(v)
    es = [w[i * n:(i + 1) * n] for i in range(npar // n)]
    tot = [float(sum(e[i] for e in raw)) for i in range(n)]
    if k == 'tp': es.append([t - sum((e[i] for e in es[1:]), es[0][i]) for i, t in enumerate(tot)])
    for l, e in zip(lb, es):
        E = pv[l]
        gp = [int(x) for x in E.gpindices_as_array()]
        loc = [Jet(x.v, {gp.index(a): b for a, b in x.g.items()}) for x in e]
        check_derivs(cx, E, loc, len(gp), "effect %s" % l)
    for l, E in pv.simplify_effects('P').items():
        gp = [int(x) for x in E.gpindices_as_array()]
        loc = [Jet(x.v, {gp.index(a): b for a, b in x.g.items()}) for x in es[lb.index(l[2:])]]
        check_derivs(cx, E, loc, len(gp), "simplified effect %s" % l, hess=False)


@harness(params=[dict(t=t, m=m) for t in (0, 1) for m in (1, 2, 3)], kinds='fc', encodes=['TPInstrumentOp.deriv_wrt_params', 'TPInstrumentOp.has_nonzero_hessian', 'TPInstrument.simplify_operations', 'Instrument.simplify_operations'],
         bounds='all parameters in [-1,1], 1-3 members', **COMMON)
def instr(cx):
    """derivatives of instrument members by the instrument's parameters"""
    m, d = cx.p['m'], 2
    mats = [p15.conc(30 + i, d, d) for i in range(m)]
    if cx.p['t']:
        s = sum(mats)
        mats[-1][0] += np.array([1., 0.]) - s[0]
    lb = ['p%d' % i for i in range(m)]
    inst = (IN.TPInstrument if cx.p['t'] else IN.Instrument)(list(zip(lb, [M for M in mats] if cx.p['t'] else [OP.FullDenseOp(M) for M in mats])))
    npar = inst.num_params()
    inst.set_gpindices(slice(0, npar), None)
    v = cx.reals('v', npar)
    inst.from_vector(cx.array(list(v), (npar,), 'f'))
    simp = inst.simplify_operations('I')

    def mats_at(w):
        inst.from_vector(cx.array(list(w), (npar,), 'f'))
        s = inst.simplify_operations('I')
        return {l: [s[l].todense()[i, j] for i in range(d) for j in range(d)] for l in s}
    # members are linear in the parameters: unit differences are exact derivatives
    base = mats_at(v)
    steps = [mats_at([x + (1. if i == k else 0.) for i, x in enumerate(v)]) for k in range(npar)]
    inst.from_vector(cx.array(list(v), (npar,), 'f'))
    simp = inst.simplify_operations('I')
    for l, op in simp.items():
        gp = [int(x) for x in op.gpindices_as_array()]
        for k in range(npar):
            if k not in gp: cx.check_close(steps[k][l], base[l], "member %s does not depend on parameters it does not own" % l)
        ref = [Jet(base[l][e], {i: steps[g][l][e] - base[l][e] for i, g in enumerate(gp)}) for e in range(d * d)]
        check_derivs(cx, op, ref, len(gp), "member %s" % l)


# ---- products and probabilities of models

def msetup(cx, sim, box=.0625, keep=None):
    md = MODELS[cx.p['m']]
    m = md.build(sim)
    v = params(cx, m, box)
    if keep is not None:   # only some parameters are symbolic
        v0 = [float(x) for x in m.to_vector()]
        v = [x if i in keep else y for i, (x, y) in enumerate(zip(v, v0))]
    m.from_vector(cx.array(list(v), (len(v),), 'f'))
    return md, m, v, md.refs(m, jets(v))


MC = {'full': [('Gx', 'Gy', 'Gx'), (), ('rho1', 'Gy', 'Mb')], 'tp': [('Gx', 'Gx', 'Gy'), (), ('Gy',)], 'mix': [('Gc', 'Gx', 'Gc'), ('rho1', 'Gy', 'Gx'), ('Gy',)],
      'inst': [('Gx', 'Iz', 'Gy'), ('Iz', 'Iz'), ('Gx',)]}
BM = 'parameters within 1/16 of the starting values; circuits of up to 3 gates; all parameters or selections, also out of order'


def jet_prod(refs, c):
    G = p15.I(2)
    for l in c: G = mm(refs[l], G)
    return sum(G, [])


def mfilters(n, contiguous=False):
    return [None, list(range(1, n - 1))] + ([[n - 1]] if contiguous else [[n - 1, 0], [n - 1], [2, 0, n - 2]])


@harness(params=[dict(m=k) for k in ('full', 'tp', 'mix')], kinds='fc', encodes=['MatrixForwardSimulator.dproduct', 'MatrixForwardSimulator.hproduct', 'MatrixForwardSimulator.doperation', 'MatrixForwardSimulator.hoperation',
         'MatrixForwardSimulator._process_wrtFilter'], bounds=BM, modules=SM.MODS, limit=300)
def products(cx):
    """derivatives of single gates and products of gates"""
    md, m, v, refs = msetup(cx, 'matrix')
    n = len(v)
    fs = m._fwdsim()
    ls = list(md.ops)
    for l in ls:
        r = sum(refs[l], [])
        for f in mfilters(n):
            cols = f if f is not None else list(range(n))
            D = fs.doperation(L.Label(l), wrtFilter=f)
            cx.check_close([D[c, i, j] for c in range(len(cols)) for i in range(2) for j in range(2)], [d1(r[k], p) for p in cols for k in range(4)], "derivative of %s, selection %r" % (l, f))
            H = fs.hoperation(L.Label(l), wrtFilter1=f, wrtFilter2=[1, 0])
            cx.check_close([H[c, e, i, j] for c in range(len(cols)) for e in range(2) for i in range(2) for j in range(2)], [d2(r[k], p, q) for p in cols for q in (1, 0) for k in range(4)], "Hessian of %s, selection %r" % (l, f))
    for c in ((ls[0], ls[1], ls[0]), (), (ls[-1], ls[-1])):
        C = Circuit(c)
        r = jet_prod(refs, c)
        r = [x if isinstance(x, Jet) else Jet(x) for x in r]
        for f in mfilters(n):
            cols = f if f is not None else list(range(n))
            D = m.dproduct(C) if f is None else fs.dproduct(C, wrtFilter=f)
            cx.check_shape(D, (len(cols), 2, 2), "shape of the derivative of a product")
            cx.check_close([D[k, i, j] for k in range(len(cols)) for i in range(2) for j in range(2)], [d1(r[k], p) for p in cols for k in range(4)], "derivative of the product %s, selection %r" % (c, f))
            D = fs.dproduct(C, flat=True, wrtFilter=f)
            cx.check_close([D[k, i] for k in range(4) for i in range(len(cols))], [d1(r[k], p) for k in range(4) for p in cols], "flat derivative of the product %s, selection %r" % (c, f))
        for f, g in [(None, None), ([n - 1, 0], None), (None, [1]), ([0, n - 1, 1], [2, 0])]:
            a, b = list(range(n)) if f is None else f, list(range(n)) if g is None else g
            for flat in (False, True):
                H = m.hproduct(C, flat) if f is None and g is None else fs.hproduct(C, flat, wrtFilter1=f, wrtFilter2=g)
                cx.check_shape(H, (4, len(a), len(b)) if flat else (len(a), len(b), 2, 2), "shape of the Hessian of a product")
                got = [H[k, i, j] if flat else H[i, j, k // 2, k % 2] for k in range(4) for i in range(len(a)) for j in range(len(b))]
                cx.check_close(got, [d2(r[k], p, q) for k in range(4) for p in a for q in b], "Hessian of the product %s, selections %r %r" % (c, f, g))


@harness(params=[dict(m=k, c=i) for k in SM.MODELS for i in range(3)], kinds='fc', encodes=['MatrixForwardSimulator.dpr', 'MatrixForwardSimulator.hpr', 'ForwardSimulator.dprobs', 'ForwardSimulator.hprobs', 'OpModel.dprobs', 'OpModel.hprobs'],
         bounds=BM, modules=SM.MODS, limit=300)
def probs(cx):
    """derivatives of single probabilities"""
    md, m, v, refs = msetup(cx, 'matrix')
    n = len(v)
    c = MC[cx.p['m']][cx.p['c']]
    C, = md.circuits([c])
    want = [(o, md.prob(refs, path)) for o, path in md.outcomes(c)]
    D, DP, H = m.dprobs(C), m.dprobs(C, returnPr=True, clipTo=(-2, 2)), m.hprobs(C)
    HP, HD, HDP = m.hprobs(C, returnPr=True), m.hprobs(C, returnDeriv=True), m.hprobs(C, returnPr=True, returnDeriv=True)
    for o, p in want:
        g = [d1(p, i) for i in range(n)]
        h = [d2(p, i, j) for i in range(n) for j in range(n)]
        def fd(x): return [x[0, i] for i in range(n)]
        def fh(x): return [x[0, i, j] for i in range(n) for j in range(n)]
        def fp(x): return x[0, 0] if getattr(x, 'ndim', 0) else x
        cx.check_close(fd(D[o]), g, "dprobs of %s" % (o,))
        cx.check_close(fd(DP[o][0]), g, "dprobs with probabilities of %s" % (o,))
        cx.check_close(fh(H[o]), h, "hprobs of %s" % (o,))
        cx.check_close(fh(HP[o][0]) + fh(HD[o][0]) + fh(HDP[o][0]), h * 3, "hprobs with more of %s" % (o,))
        cx.check_close(fd(HD[o][1]) + fd(HDP[o][1]), g * 2, "derivatives with hprobs of %s" % (o,))
        cx.check_close([fp(DP[o][1]), fp(HP[o][1]), fp(HDP[o][2])], [val(p)] * 3, "probabilities with derivatives of %s" % (o,))


def expect(md, refs, cs, lookup, n, wh):
    """rows of the expected (probability, derivative, Hessian) in element order"""
    out = [None] * n
    for i, c in enumerate(cs):
        els = list(range(*lookup[i].indices(n))) if isinstance(lookup[i], slice) else [int(x) for x in lookup[i]]
        for e, (o, path) in zip(els, md.outcomes(c)): out[e] = md.prob(refs, path)
    return out


TREES = [{}, dict(minSubtrees=2), dict(maxTreeSize=7)]


@harness(params=[dict(m=k, t=t) for k in SM.MODELS for t in range(3)], kinds='fc', encodes=['MatrixForwardSimulator.bulk_fill_dprobs', 'MatrixForwardSimulator._compute_dproduct_cache', 'MatrixForwardSimulator._dprobs_from_rhoE',
         'MatrixForwardSimulator.bulk_dproduct', 'ForwardSimulator.bulk_dprobs', 'OpModel.bulk_dprobs', '_fas'], bounds=BM + '; parameter blocks of several sizes; trees whole or split', modules=SM.MODS, limit=400)
def bulk_d(cx):
    """derivatives of the probabilities of lists of circuits"""
    md, m, v, refs = msetup(cx, 'matrix')
    n, cs = len(v), MC[cx.p['m']]
    Cs = md.circuits(cs)
    tree, lookup, outs = m.bulk_evaltree(Cs, **TREES[cx.p['t']])
    N = tree.num_final_elements()
    want = expect(md, refs, cs, lookup, N, 1)
    cases = [dict(), dict(wrtFilter=list(range(1, n - 1))), dict(wrtFilter=[n - 1]), dict(wrtBlockSize=2), dict(wrtBlockSize=n), dict(wrtBlockSize=3, pr=True), dict(pr=True, clipTo=(-3, 3))]
    for kw in cases:
        kw = dict(kw)
        pr = cx.array([0.] * N, (N,), 'f') if kw.pop('pr', False) else None
        cols = kw.get('wrtFilter') or list(range(n))
        got = cx.array([0.] * (N * len(cols)), (N, len(cols)), 'f')
        m._fwdsim().bulk_fill_dprobs(got, tree, pr, **kw) if 'wrtFilter' in kw else m.bulk_fill_dprobs(got, tree, pr, **kw)
        cx.check_close([got[e, k] for e in range(N) for k in range(len(cols))], [d1(p, i) for p in want for i in cols], "bulk derivatives %r" % (kw,))
        if pr is not None: cx.check_close([pr[e] for e in range(N)], [val(p) for p in want], "probabilities with bulk derivatives %r" % (kw,))
    if cx.p['t']: return
    got = m.bulk_dprobs(Cs)
    gotp = m.bulk_dprobs(Cs, returnPr=True, wrtBlockSize=2)
    fs = m._fwdsim()
    gotf = fs.bulk_dprobs(Cs, tree, lookup, outs, wrtFilter=[1, 2, 3])
    for c, C in zip(cs, Cs):
        for o, path in md.outcomes(c):
            p = md.prob(refs, path)
            g = [d1(p, i) for i in range(n)]
            cx.check_close([got[C][o][i] for i in range(n)] + [gotp[C][o][0][i] for i in range(n)] + [gotp[C][o][1]], g + g + [val(p)], "bulk_dprobs of %s %s" % (c, o))
            cx.check(len(gotf[C][o]) == 3, "filtered derivatives have one column per selected parameter")
            cx.check_close([gotf[C][o][i] for i in range(3)], g[1:4], "filtered bulk_dprobs of %s %s" % (c, o))
    if cx.p['m'] != 'inst':
        order = [tuple(str(x) for x in c if str(x) not in md.preps) for c in tree.generate_circuit_list()]
        R = [[x if isinstance(x, Jet) else Jet(x) for x in jet_prod(refs, c)] for c in order]
        K = len(order)
        for f in (None, [1, 2, 3]):
            cols = f or list(range(n))
            D = m.bulk_dproduct(tree) if f is None else fs.bulk_dproduct(tree, wrtFilter=f)
            w = [d1(R[k][e], p) for k in range(K) for p in cols for e in range(4)]
            cx.check_close([D[k, i, e // 2, e % 2] for k in range(K) for i in range(len(cols)) for e in range(4)], w, "bulk_dproduct")
            D, G = fs.bulk_dproduct(tree, flat=True, bReturnProds=True, wrtFilter=f)
            cx.check_close([D[k * 4 + e, i] for k in range(K) for i in range(len(cols)) for e in range(4)], w, "flat bulk_dproduct")
            cx.check_close([G[k, e // 2, e % 2] for k in range(K) for e in range(4)], [val(R[k][e]) for k in range(K) for e in range(4)], "products with bulk_dproduct")
            D, s = fs.bulk_dproduct(tree, bScale=True, wrtFilter=f)
            cx.check_close([D[k, i, e // 2, e % 2] * s[k] for k in range(K) for i in range(len(cols)) for e in range(4)], w, "scaled bulk_dproduct")


@harness(params=[dict(m=k, t=t) for k in SM.MODELS for t in range(3)], kinds='fc', encodes=['MatrixForwardSimulator.bulk_fill_hprobs', 'MatrixForwardSimulator._compute_hproduct_cache', 'MatrixForwardSimulator._hprobs_from_rhoE',
         'MatrixForwardSimulator.bulk_hproduct', 'MatrixForwardSimulator.bulk_hprobs_by_block', 'ForwardSimulator.bulk_hprobs', 'OpModel.bulk_hprobs', '_fas'], bounds=BM + '; parameter blocks of several sizes; trees whole or split', modules=SM.MODS, limit=600)
def bulk_h(cx):
    """second derivatives of the probabilities of lists of circuits"""
    md, m, v, refs = msetup(cx, 'matrix')
    n, cs = len(v), MC[cx.p['m']]
    Cs = md.circuits(cs)
    tree, lookup, outs = m.bulk_evaltree(Cs, **TREES[cx.p['t']])
    N = tree.num_final_elements()
    want = expect(md, refs, cs, lookup, N, 2)
    fs = m._fwdsim()
    cases = [dict(), dict(wrtFilter1=list(range(1, n - 1)), wrtFilter2=[n - 1], d=True), dict(wrtFilter2=[1, 2]), dict(wrtBlockSize1=3, wrtBlockSize2=2, d=True, pr=True), dict(wrtBlockSize1=2), dict(wrtBlockSize2=n, d=True), dict(pr=True, d=True)]
    for kw in cases:
        kw = dict(kw)
        a, b = kw.get('wrtFilter1') or list(range(n)), kw.get('wrtFilter2') or list(range(n))
        pr = cx.array([0.] * N, (N,), 'f') if kw.pop('pr', False) else None
        dd = kw.pop('d', False)
        da = cx.array([0.] * (N * len(a)), (N, len(a)), 'f') if dd else None
        db = cx.array([0.] * (N * len(b)), (N, len(b)), 'f') if dd else None
        got = cx.array([0.] * (N * len(a) * len(b)), (N, len(a), len(b)), 'f')
        fs.bulk_fill_hprobs(got, tree, pr, da, db, **kw)
        cx.check_close([got[e, i, j] for e in range(N) for i in range(len(a)) for j in range(len(b))], [d2(p, i, j) for p in want for i in a for j in b], "bulk Hessians %r" % (kw,))
        if pr is not None: cx.check_close([pr[e] for e in range(N)], [val(p) for p in want], "probabilities with bulk Hessians %r" % (kw,))
        if dd:
            cx.check_close([da[e, i] for e in range(N) for i in range(len(a))], [d1(p, i) for p in want for i in a], "first derivatives with bulk Hessians %r" % (kw,))
            cx.check_close([db[e, i] for e in range(N) for i in range(len(b))], [d1(p, i) for p in want for i in b], "second set of first derivatives with bulk Hessians %r" % (kw,))
    if cx.p['t']: return
    sl = [(slice(0, 2), slice(0, 2)), (slice(0, 2), slice(1, n)), (slice(2, n), slice(0, 1))]
    left = list(sl)
    for (s1, s2, h), (t1, t2, k, dd) in zip(m.bulk_hprobs_by_block(tree, sl), m.bulk_hprobs_by_block(tree, sl, bReturnDProbs12=True)):
        cx.check((s1, s2) == (t1, t2) and (s1, s2) == left.pop(0), "blocks")
        A_, B_ = list(range(s1.start, s1.stop)), list(range(s2.start, s2.stop))
        w = [d2(p, i, j) for p in want for i in A_ for j in B_]
        ix = [(e, i, j) for e in range(N) for i in range(len(A_)) for j in range(len(B_))]
        cx.check_close([h[x] for x in ix] + [k[x] for x in ix], w + w, "Hessian block")
        cx.check_close([dd[x] for x in ix], [d1(p, i) * d1(p, j) for p in want for i in A_ for j in B_], "products of derivatives of a block")
    cx.check(not left, "every block")
    g0 = m.bulk_hprobs(Cs)
    g1 = m.bulk_hprobs(Cs, returnPr=True, returnDeriv=True, wrtBlockSize1=2, wrtBlockSize2=3)
    g2 = fs.bulk_hprobs(Cs, tree, lookup, outs, returnDeriv=True, wrtFilter1=[1, 2], wrtFilter2=[0, 1, 2])
    for c, C in zip(cs, Cs):
        for o, path in md.outcomes(c):
            p = md.prob(refs, path)
            h, g = [d2(p, i, j) for i in range(n) for j in range(n)], [d1(p, i) for i in range(n)]
            cx.check_close([g0[C][o][i, j] for i in range(n) for j in range(n)], h, "bulk_hprobs of %s %s" % (c, o))
            x = g1[C][o]
            cx.check_close([x[0][i, j] for i in range(n) for j in range(n)] + [x[1][i] for i in range(n)] + [x[-1]], h + g + [val(p)], "bulk_hprobs with derivatives of %s %s" % (c, o))
            x = g2[C][o]
            cx.check_shape(x[0], (2, 3), "filtered bulk_hprobs"); cx.check_shape(x[1], (2,), "filtered derivatives"); cx.check_shape(x[2], (3,), "second filtered derivatives")
            cx.check_close([x[0][i, j] for i in range(2) for j in range(3)], [d2(p, i, j) for i in (1, 2) for j in (0, 1, 2)], "filtered bulk_hprobs of %s %s" % (c, o))
            cx.check_close([x[1][i] for i in range(2)] + [x[2][i] for i in range(3)], g[1:3] + g[:3], "filtered derivatives with bulk_hprobs of %s %s" % (c, o))
    if cx.p['m'] != 'inst':
        order = [tuple(str(x) for x in c if str(x) not in md.preps) for c in tree.generate_circuit_list()]
        R = [[x if isinstance(x, Jet) else Jet(x) for x in jet_prod(refs, c)] for c in order]
        K = len(order)
        for f, g in ((None, None), ([1, 2, 3], [0, 1]), (None, [1])):
            a, b = f or list(range(n)), g or list(range(n))
            w = [d2(R[k][e], p, q) for k in range(K) for p in a for q in b for e in range(4)]
            ix = [(k, i, j, e) for k in range(K) for i in range(len(a)) for j in range(len(b)) for e in range(4)]
            H = fs.bulk_hproduct(tree, wrtFilter1=f, wrtFilter2=g)
            cx.check_close([H[k, i, j, e // 2, e % 2] for k, i, j, e in ix], w, "bulk_hproduct")
            H, D1, D2, G = fs.bulk_hproduct(tree, flat=True, bReturnDProdsAndProds=True, wrtFilter1=f, wrtFilter2=g)
            cx.check_close([H[k * 4 + e, i, j] for k, i, j, e in ix], w, "flat bulk_hproduct")
            cx.check_close([D1[k * 4 + e, i] for k in range(K) for e in range(4) for i in range(len(a))] + [D2[k * 4 + e, i] for k in range(K) for e in range(4) for i in range(len(b))],
                           [d1(R[k][e], i) for k in range(K) for e in range(4) for i in a] + [d1(R[k][e], i) for k in range(K) for e in range(4) for i in b], "derivatives with bulk_hproduct")
            H, s = fs.bulk_hproduct(tree, bScale=True, wrtFilter1=f, wrtFilter2=g)
            cx.check_close([H[k, i, j, e // 2, e % 2] * s[k] for k, i, j, e in ix], w, "scaled bulk_hproduct")


def near(cx, got, want, msg, tol):
    """got and want differ by at most tol for every value of the parameters"""
    cx.check_close(list(got), list(want), msg, tol=tol)


@harness(params=[dict(m=k, t=t) for k in ('full', 'tp', 'mix', 'inst') for t in range(3)], kinds='fc', encodes=['MapForwardSimulator.bulk_fill_dprobs', 'MapForwardSimulator.bulk_fill_hprobs', 'MapForwardSimulator.DM_mapfill_hprobs_block',
         'MapForwardSimulator.dpr', 'MapForwardSimulator.hpr', 'slowreplib.DM_mapfill_dprobs_block', 'MapForwardSimulator.bulk_hprobs_by_block'], bounds=BM + '; three parameters vary at once; finite differences must be within 1e-4 of the exact derivative',
         modules=SM.MODS, limit=400)
def map_d(cx):
    """derivatives by finite differences with the map-based simulator"""
    keep = {0: (0, 3, 5), 1: (1, 2, 4), 2: (0, 1, 6)}[cx.p['t']]
    md, m, v, refs = msetup(cx, 'map', keep=keep)
    n, cs = len(v), MC[cx.p['m']]
    Cs = md.circuits(cs)
    tree, lookup, outs = m.bulk_evaltree(Cs, **(dict(minSubtrees=2) if cx.p['t'] else {}))
    N = tree.num_final_elements()
    want = expect(md, refs, cs, lookup, N, 2)
    fs = m._fwdsim()
    vec0 = list(m.to_vector())
    D1, D2 = [[d1(p, i) for i in range(n)] for p in want], [[[d2(p, i, j) for j in range(n)] for i in range(n)] for p in want]

    def same(msg):
        cx.check_close(list(m.to_vector()), vec0, "the parameters are restored after " + msg)
        cx.check_close(list(fs.to_vector()), vec0, "the simulator's parameters are restored after " + msg)
        g = m.probs(Cs[0])
        for o, path in md.outcomes(cs[0]): cx.check_close([g[o]], [val(md.prob(refs, path))], "the members are restored after " + msg)

    for kw in [dict(), dict(wrtFilter=list(range(1, n - 1))), dict(wrtFilter=[n - 1]), dict(wrtBlockSize=2, pr=True), dict(wrtBlockSize=n)]:
        kw = dict(kw)
        pr = cx.array([0.] * N, (N,), 'f') if kw.pop('pr', False) else None
        cols = kw.get('wrtFilter') or list(range(n))
        got = cx.array([0.] * (N * len(cols)), (N, len(cols)), 'f')
        fs.bulk_fill_dprobs(got, tree, pr, **kw)
        near(cx, [got[e, k] for e in range(N) for k in range(len(cols))], [D1[e][i] for e in range(N) for i in cols], "bulk derivatives %r" % (kw,), 1e-5)
        if pr is not None: cx.check_close([pr[e] for e in range(N)], [val(p) for p in want], "probabilities with bulk derivatives %r" % (kw,))
    same("bulk_fill_dprobs")
    for kw in [dict(d=True, pr=True), dict(wrtFilter1=[1, 2], wrtFilter2=[n - 1], d=True), dict(wrtFilter2=[0, 1]), dict(wrtBlockSize1=3, wrtBlockSize2=n, d=True), dict(wrtBlockSize2=4)]:
        kw = dict(kw)
        a, b = kw.get('wrtFilter1') or list(range(n)), kw.get('wrtFilter2') or list(range(n))
        pr = cx.array([0.] * N, (N,), 'f') if kw.pop('pr', False) else None
        dd = kw.pop('d', False)
        da = cx.array([0.] * (N * len(a)), (N, len(a)), 'f') if dd else None
        db = cx.array([0.] * (N * len(b)), (N, len(b)), 'f') if dd else None
        got = cx.array([0.] * (N * len(a) * len(b)), (N, len(a), len(b)), 'f')
        fs.bulk_fill_hprobs(got, tree, pr, da, db, **kw)
        near(cx, [got[e, i, j] for e in range(N) for i in range(len(a)) for j in range(len(b))], [D2[e][i][j] for e in range(N) for i in a for j in b], "bulk Hessians %r" % (kw,), 4e-3)
        if pr is not None: cx.check_close([pr[e] for e in range(N)], [val(p) for p in want], "probabilities with bulk Hessians %r" % (kw,))
        if dd:
            near(cx, [da[e, i] for e in range(N) for i in range(len(a))], [D1[e][i] for e in range(N) for i in a], "first derivatives with bulk Hessians %r" % (kw,), 1e-5)
            near(cx, [db[e, i] for e in range(N) for i in range(len(b))], [D1[e][i] for e in range(N) for i in b], "second set of first derivatives with bulk Hessians %r" % (kw,), 1e-5)
    same("bulk_fill_hprobs")
    if not cx.p['t']:
        sl = [(slice(0, 2), slice(0, 2)), (slice(0, 2), slice(1, 4))]
        out = list(m.bulk_hprobs_by_block(tree, sl)) + list(m.bulk_hprobs_by_block(tree, sl, bReturnDProbs12=True))
        cx.check([x[:2] for x in out] == sl + sl, "blocks")
        for x in out:
            ix = [(e, i, j) for e in range(N) for i in range(x[0].stop - x[0].start) for j in range(x[1].stop - x[1].start)]
            near(cx, [x[2][k] for k in ix], [D2[e][i + x[0].start][j + x[1].start] for e, i, j in ix], "Hessian block", 4e-3)
            if len(x) > 3: near(cx, [x[3][k] for k in ix], [D1[e][i + x[0].start] * D1[e][j + x[1].start] for e, i, j in ix], "products of derivatives of a block", 1e-5)
        same("bulk_hprobs_by_block")
    for c, C in list(zip(cs, Cs))[:1]:
        g, h = m.dprobs(C, returnPr=True), m.hprobs(C, returnPr=True, returnDeriv=True)
        for o, path in md.outcomes(c):
            p = md.prob(refs, path)
            w = [d1(p, i) for i in range(n)]
            x = g[o]
            near(cx, [x[0].flatten()[i] for i in range(n)] + [x[1]], w + [val(p)], "dprobs of %s" % (c,), 1e-5)
            x = h[o]
            near(cx, [x[0].flatten()[k] for k in range(n * n)], [d2(p, i, j) for i in range(n) for j in range(n)], "hprobs of %s" % (c,), 4e-3)
            near(cx, [x[1].flatten()[i] for i in range(n)], w, "derivatives with hprobs of %s" % (c,), 1e-5)
            cx.check_close([x[2]], [val(p)], "probability with hprobs of %s" % (c,))
        same("dprobs and hprobs")
