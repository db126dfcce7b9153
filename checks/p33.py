"""P33: gauge transformations change no observable probability; gauge groups and the gauge-optimization objective are consistent."""
import warnings
import numpy as np
from symex.harness import harness
from pygsti.objects import gaugegroup as GG
from pygsti.objects import operation as OP
from pygsti.objects import povm as PV
from pygsti.objects import instrument as IN
from pygsti.objects import ExplicitOpModel
from pygsti.algorithms import gaugeopt as GO
from checks import simmodel as SM
from checks.simmodel import M, gfull, gtp, vfull, vtp, un, tpov
from checks.p15 import mm, mv, tr
from checks.jet import Jet, jets, val, d1

MODS = SM.MODS + ['pygsti.objects.gaugegroup', 'pygsti.objects.explicitcalc', 'pygsti.algorithms.gaugeopt', 'pygsti.tools.optools']
META = {'assumptions': ['models live on a two-dimensional classical space (the formulas do not depend on what the space stands for); either the group element or the model is symbolic, the other one is fixed to the listed values',
                        'the optimizer itself is replaced by a stub that evaluates the objective and its Jacobian at a symbolic point and returns it',
                        'outside: the unitary gauge group (matrix exponential), penalty terms (eigenvalues), the non-gauge projector (QR and singular values), members shared by two labels of a model']}

# name -> (constructor, number of parameters, parameters -> matrix, starting parameters)


def _rows(v, n): return [list(v[i * n:(i + 1) * n]) for i in range(n)]
def _diag(d): return [[d[i] if i == j else 0. for j in range(len(d))] for i in range(len(d))]


GROUPS = {
    'full2': (lambda: GG.FullGaugeGroup(2), 4, lambda v: _rows(v, 2), [1., 0., 0., 1.]),
    'full3': (lambda: GG.FullGaugeGroup(3), 9, lambda v: _rows(v, 3), [1., 0., 0., 0., 1., 0., 0., 0., 1.]),
    'tp2': (lambda: GG.TPGaugeGroup(2), 2, lambda v: [[1., 0.], list(v)], [0., 1.]),
    'tp3': (lambda: GG.TPGaugeGroup(3), 6, lambda v: [[1., 0., 0.]] + _rows(v, 3)[:2], [0., 1., 0., 0., 0., 1.]),
    'diag2': (lambda: GG.DiagGaugeGroup(2), 2, lambda v: _diag([x + 1 for x in v]), [0.] * 2),
    'diag3': (lambda: GG.DiagGaugeGroup(3), 3, lambda v: _diag([x + 1 for x in v]), [0.] * 3),
    'diag4': (lambda: GG.DiagGaugeGroup(4), 4, lambda v: _diag([x + 1 for x in v]), [0.] * 4),
    'tpdiag2': (lambda: GG.TPDiagGaugeGroup(2), 1, lambda v: _diag([1.] + [x + 1 for x in v]), [0.]),
    'tpdiag3': (lambda: GG.TPDiagGaugeGroup(3), 2, lambda v: _diag([1.] + [x + 1 for x in v]), [0.] * 2),
    'tpdiag4': (lambda: GG.TPDiagGaugeGroup(4), 3, lambda v: _diag([1.] + [x + 1 for x in v]), [0.] * 3),
    'spam2': (lambda: GG.SpamGaugeGroup(2), 2, lambda v: _diag([v[0] + 1, v[1] + 1]), [0.] * 2),
    'spam3': (lambda: GG.SpamGaugeGroup(3), 2, lambda v: _diag([v[0] + 1] + [v[1] + 1] * 2), [0.] * 2),
    'spam4': (lambda: GG.SpamGaugeGroup(4), 2, lambda v: _diag([v[0] + 1] + [v[1] + 1] * 3), [0.] * 2),
    'tpspam2': (lambda: GG.TPSpamGaugeGroup(2), 1, lambda v: _diag([1., v[0] + 1]), [0.]),
    'tpspam3': (lambda: GG.TPSpamGaugeGroup(3), 1, lambda v: _diag([1., v[0] + 1, v[0] + 1]), [0.]),
    'tpspam4': (lambda: GG.TPSpamGaugeGroup(4), 1, lambda v: _diag([1.] + [v[0] + 1] * 3), [0.]),
    'trivial2': (lambda: GG.TrivialGaugeGroup(2), 0, lambda v: _diag([1., 1.]), []),
    'trivial3': (lambda: GG.TrivialGaugeGroup(3), 0, lambda v: _diag([1., 1., 1.]), []),
}
BOX = .25


def near_identity(cx, name, tag='s', box=BOX):
    n, x0 = GROUPS[name][1], GROUPS[name][3]
    return [cx.real('%s%d' % (tag, i), x0[i] - box, x0[i] + box) for i in range(n)]


def flat(m): return [x for r in m for x in r]
def mat(a): return [a[i, j] for i in range(a.shape[0]) for j in range(a.shape[1])]


@harness(params=[dict(g=k) for k in GROUPS], kinds='fc', encodes=['GaugeGroup.get_element', 'OpGaugeGroupElement.get_transform_matrix', 'OpGaugeGroupElement.get_transform_matrix_inverse', 'TPGaugeGroupElement.get_transform_matrix_inverse',
         'OpGaugeGroupElement.from_vector', 'OpGaugeGroupElement.deriv_wrt_params', 'FullGaugeGroup', 'TPGaugeGroup', 'DiagGaugeGroup', 'TPDiagGaugeGroup', 'SpamGaugeGroup', 'TPSpamGaugeGroup', 'TrivialGaugeGroup'],
         bounds='dimensions 2-4; parameters within 1/4 of the identity element', modules=MODS)
def element(cx):
    """an element's matrix is that of its parameters, its inverse is the inverse matrix (also after new parameters), and its derivative the derivative of the matrix"""
    mk, n, ref, x0 = GROUPS[cx.p['g']]
    grp = mk()
    D = len(ref(x0))
    I = flat(_diag([1.] * D))
    cx.check(grp.num_params() == n, "number of parameters")
    cx.check_close(list(grp.get_initial_params()), x0, "the starting parameters are those of the identity")
    v, w = near_identity(cx, cx.p['g']), near_identity(cx, cx.p['g'], 'w')
    el = grp.get_element(cx.array(list(v), (n,), 'f'))
    other = grp.get_element(cx.array(list(w), (n,), 'f'))
    cx.check(el.num_params() == n, "number of parameters of an element")

    def is_(e, p, what):
        cx.check_close(list(e.to_vector()), list(p), "parameters " + what)
        S = ref(p)
        cx.check_close(mat(e.get_transform_matrix()), flat(S), "matrix " + what)
        Si = e.get_transform_matrix_inverse()
        Si = [[Si[i, j] for j in range(D)] for i in range(D)]
        cx.check_close(flat(mm(S, Si)), I, "inverse " + what)
        cx.check_close(flat(mm(Si, S)), I, "left inverse " + what)
        if n:
            J = ref(jets(p))
            d = e.deriv_wrt_params()
            cx.check_shape(d, (D * D, n), "derivative " + what)
            cx.check_close([d[i, j] for i in range(D * D) for j in range(n)], [d1(x, j) for x in flat(J) for j in range(n)], "derivative " + what)
            if n > 1:
                sel = [n - 1, 0]
                d = e.deriv_wrt_params(sel)
                cx.check_shape(d, (D * D, 2), "selected derivative " + what)
                cx.check_close([d[i, j] for i in range(D * D) for j in range(2)], [d1(x, j) for x in flat(J) for j in sel], "selected derivative " + what)

    is_(el, v, "of the first element")
    is_(other, w, "of the second element")
    if n:
        el.from_vector(cx.array(list(w), (n,), 'f'))
        is_(el, w, "after new parameters")
        other.from_vector(cx.array(list(v), (n,), 'f'))
        is_(el, w, "after changing another element")
        cx.check_close(list(grp.get_initial_params()), x0, "the group's starting parameters are unchanged")


# ---- models

A, B, C, T, U = SM.A, SM.B, SM.C, SM.T, SM.U
MODELS = {
    'full': M({'rho0': vfull(SM.R0), 'rho1': vfull(SM.R1)}, {'Mdefault': un([.75, .25], [.25, .5]), 'Mb': un([.5, .5])}, {'Gx': gfull(A), 'Gy': gfull(B)}),
    'inst': M({'rho0': vfull(SM.R0)}, {'Mdefault': un([.75, .25], [.25, .5])}, {'Gx': gfull(A)}, {'Iz': [('p0', gfull(B)), ('p1', gfull(C))]}),
    'tp': M({'rho0': vtp([2**-.25, .25])}, {'Mdefault': tpov([.75, .25], [.25, -.25])}, {'Gx': gtp(T), 'Gy': gtp(U)}),
}
CASES = [('full', 'full2'), ('full', 'tp2'), ('full', 'diag2'), ('full', 'spam2'), ('full', 'tpspam2'), ('full', 'trivial2'), ('inst', 'full2'), ('inst', 'tp2'), ('tp', 'tp2'), ('tp', 'tpdiag2')]
CIRCS = {'full': [('Gx', 'Gy'), ('rho1', 'Gy', 'Mb'), ()], 'inst': [('Gx', 'Iz'), ('Iz', 'Gx', 'Iz')], 'tp': [('Gx', 'Gy', 'Gx'), ()]}
BM = 'dimension-2 models (two classical states) with all members free, instruments and complement effects included; group elements within 1/4 of the identity'


def setup(cx, sim='matrix', sym=True, box=.0625):
    md = MODELS[cx.p['m']]
    m = md.build(sim)
    v0 = [float(x) for x in m.to_vector()]
    keep = range(len(v0)) if sym is True else sym
    v = [cx.real('v%d' % i, x - box, x + box) if i in keep else x for i, x in enumerate(v0)]
    m.from_vector(cx.array(list(v), (len(v),), 'f'))
    return md, m, v, md.refs(m, v)


# boxes that keep away from the identity (a model decides by a tolerance whether its parameters changed) and fixed elements
BOXES = {'full2': [(2., .03125), (.5, .03125), (-.5, .03125), (1., .03125)], 'tp2': [(.25, .125), (.75, .125)], 'diag2': [(.5, .125), (-.5, .0625)], 'spam2': [(.25, .125), (-.25, .125)],
         'tpspam2': [(.5, .25)], 'tpdiag2': [(.5, .25)], 'trivial2': []}
POINTS = {'full2': [[2., .5, -.5, 1.], [0., 1., 2., .5]], 'tp2': [[.5, .5], [-1., 2.]], 'diag2': [[1., -.5]], 'spam2': [[1., -.5]], 'tpspam2': [[1.]], 'tpdiag2': [[-.5]], 'trivial2': [[]]}
ICASE = [dict(m=m, g=g, s=s, S=S) for m, g in CASES for S in [None] + POINTS[g] for s in ('matrix', 'map')]


@harness(params=ICASE, kinds='fc', encodes=['ExplicitOpModel.transform', 'LinearOperator.transform', 'SPAMVec.transform', '_BasePOVM.transform', 'TPPOVM.transform', 'Instrument.transform',
         'Model._clean_paramvec', 'OpGaugeGroupElement.*'], bounds=BM + '; circuits of up to 3 gates', modules=MODS, limit=60)
def invariance(cx):
    """the transformed model predicts the same probabilities, and transforming back by the inverse element restores it"""
    pt = cx.p['S']
    md, m, v, refs = setup(cx, cx.p['s'], sym=() if pt is None else True)
    mk, n, ref, x0 = GROUPS[cx.p['g']]
    s = [cx.real('s%d' % i, a - b, a + b) for i, (a, b) in enumerate(BOXES[cx.p['g']])] if pt is None else pt
    el = mk().get_element(cx.array(list(s), (n,), 'f'))
    cs = CIRCS[cx.p['m']]
    Cs = md.circuits(cs)
    want = [[(o, md.prob(refs, path)) for o, path in md.outcomes(c)] for c in cs]

    def same(mod, what):
        for C, w in zip(Cs, want):
            p = mod.probs(C)
            cx.check(set(p.keys()) == {o for o, _ in w}, "outcomes " + what)
            cx.check_close([p[o] for o, _ in w], [x for _, x in w], "probabilities " + what)

    same(m, "before")
    m2 = m.copy()
    m2.transform(el)
    same(m2, "after the transformation")
    same(m, "of the original after its copy was transformed")
    v2 = m2.to_vector()
    cx.check(len(v2) == len(v), "number of parameters")
    m3 = m.copy()
    m3.from_vector(v2)
    same(m3, "from the parameters of the transformed model")
    if cx.p['s'] == 'matrix' and cx.p['g'] in ('full2', 'tp2', 'trivial2', 'tpdiag2'):
        S = ref(s)
        det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
        Si = [[S[1][1] / det, -S[0][1] / det], [-S[1][0] / det, S[0][0] / det]]
        back = mk().get_element(cx.array({'full2': flat(Si), 'tp2': Si[1], 'trivial2': [], 'tpdiag2': [Si[1][1] - 1]}[cx.p['g']], (n,), 'f'))
        m2.transform(back)
        cx.check_close(list(m2.to_vector()), v, "transforming by the inverse element restores the parameters")


def tmodel(m, refs, md, S, Si):
    """expected members after the transformation, by label"""
    out = {}
    for k, x in refs.items():
        if k in md.preps: out[k] = mv(Si, x)
        elif any(k.startswith(p + '_') for p in md.povms): out[k] = mv(tr(S), x)
        else: out[k] = mm(Si, mm(x, S))
    return out


WEIGHTS = {'none': None, 'gs': {'gates': 4., 'spam': .25}, 'lbl': {'gates': 1., 'spam': .25, 'Gx': 9., 'rho0': 4., 'Mdefault_0': 2.25, 'Iz_p1': 16.}}
ICASES = [(m, g, w, S) for m, g in CASES if g != 'trivial2' for w in WEIGHTS for S in [None] + POINTS[g][:1]]


def other(md):
    """a concrete model (starting values shifted by 1/4) and its members"""
    target = md.build()
    w = np.array([float(x) + .25 for x in target.to_vector()])
    target.from_vector(w)
    return target, md.refs(target, [float(x) for x in w])




def order(md, refs):
    """members in the order operations, instrument elements, preparations, effects"""
    ops = list(md.ops) + [k + '_' + l for k, es in md.insts.items() for l, _ in es]
    return ops, list(md.preps), [k + '_' + l for k, (_, es) in md.povms.items() for l, _ in es]


def weight(w, k, kind):
    w = w or {}
    return w.get(k, w.get('gates' if kind == 0 else 'spam', 1.))


def entries(x): return flat(x) if isinstance(x[0], (list, tuple)) else list(x)


@harness(params=[dict(m=m, g=g, w=w, S=S) for m, g, w, S in ICASES], kinds='fc', encodes=['gaugeopt_to_target', 'gaugeopt_custom', '_create_objective_fn', 'ExplicitOpModel_Calc.residuals', 'LinearOperator.residuals', 'SPAMVec.residuals', 'optools.residuals'],
         bounds=BM + '; concrete target model; weights per kind of member and per member', modules=MODS, limit=60)
def lsq(cx):
    """the residuals of gauge optimization are the weighted differences between the transformed model and the target, its Jacobian their derivative, and the model returned is the model transformed by the element found"""
    pt = cx.p['S']
    md, m, v, refs = setup(cx, sym=() if pt is None else True)
    mk, n, ref, x0 = GROUPS[cx.p['g']]
    w = WEIGHTS[cx.p['w']]
    target, trefs = other(md)
    s = [cx.real('s%d' % i, a - b, a + b) for i, (a, b) in enumerate(BOXES[cx.p['g']])] if pt is None else pt
    js = jets(s)
    S = ref(js)
    det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
    di = det.inverse() if isinstance(det, Jet) else 1 / det
    Si = [[S[1][1] * di, -1 * S[0][1] * di], [-1 * S[1][0] * di, S[0][0] * di]]
    want = tmodel(m, refs, md, S, Si)
    seen = {}

    def leastsq(obj, jac, x, *a, **k):
        cx.check_close(list(x), x0, "the search starts at the identity")
        seen['f'], seen['j'] = obj(cx.array(list(s), (n,), 'f')), jac(cx.array(list(s), (n,), 'f'))
        return cx.array(list(s), (n,), 'f'), True, 'stub', None, None

    keep = GO._opt.custom_leastsq
    GO._opt.custom_leastsq = leastsq
    try:
        f, el, out = GO.gaugeopt_to_target(m, target, w, gauge_group=mk(), method='ls', returnAll=True)
    finally:
        GO._opt.custom_leastsq = keep
    res, kinds = [], order(md, refs)
    for kind, ks in enumerate(kinds):
        for k in ks:
            q = weight(w, k, kind)**.5
            res += [q * (x - y) for x, y in zip(entries(want[k]), entries(trefs[k]))]
    cx.check_shape(seen['f'], (len(res),), "one residual per element of the model")
    cx.check_close(list(seen['f']), [val(x) for x in res], "residuals")
    cx.check_shape(seen['j'], (len(res), n), "Jacobian")
    cx.check_close([seen['j'][i, j] for i in range(len(res)) for j in range(n)], [d1(x, j) for x in res for j in range(n)], "Jacobian of the residuals")
    cx.check_close(list(f), [val(x) for x in res], "value at the optimum")
    cx.check_close(list(el.to_vector()), list(s), "element found")
    for k in kinds[0]:
        o = out.operations[k] if k in md.ops else out.instruments[k.split('_')[0]][k.split('_')[1]]
        cx.check_close(mat(o.todense()), [val(x) for x in entries(want[k])], "returned gate")
    for k in kinds[1]: cx.check_close(list(out.preps[k].todense()), [val(x) for x in want[k]], "returned preparation")
    for k in kinds[2]: cx.check_close(list(out.povms[k.split('_')[0]][k.split('_')[1]].todense()), [val(x) for x in want[k]], "returned effect")
    cx.check_close(list(m.to_vector()), v, "the input model is unchanged")


@harness(params=[dict(m=m, w=w, t=t) for m in MODELS for w in WEIGHTS for t in (0, 1)], kinds='fc', encodes=['ExplicitOpModel.residuals', 'ExplicitOpModel.frobeniusdist', 'ExplicitOpModel_Calc.residuals', 'ExplicitOpModel_Calc.frobeniusdist', 'LinearOperator.residuals',
         'LinearOperator.frobeniusdist2', 'SPAMVec.residuals', 'SPAMVec.frobeniusdist2', 'optools.residuals', 'optools.frobeniusdist2'], bounds=BM + '; concrete second model and, optionally, a concrete transformation', modules=MODS, limit=60)
def distance(cx):
    """residuals and Frobenius distance between two models, the first optionally transformed"""
    md, m, v, refs = setup(cx, sym=range(0, 4))
    w = WEIGHTS[cx.p['w']]
    target, trefs = other(md)
    Tm = [[1., 0.], [.25, .5]] if cx.p['t'] else None
    want = tmodel(m, refs, md, Tm, [[1., 0.], [-.5, 2.]]) if Tm else refs
    res, tot = [], 0.
    for kind, ks in enumerate(order(md, refs)):
        for k in ks:
            q = weight(w, k, kind)
            es = [x - y for x, y in zip(entries(want[k]), entries(trefs[k]))]
            res += [q**.5 * x for x in es]
            tot += q * len(es)
    T_ = None if Tm is None else np.array(Tm)
    r, n = m.residuals(target, T_, w)
    cx.check_close(list(r), res, "residuals")
    cx.check_close([n], [tot], "weight of the residuals")
    ss = sum(x * x for x in res)
    d0, d1_ = m.frobeniusdist(target, T_, w, normalize=False), m.frobeniusdist(target, T_, w)
    cx.check_close([d0 * d0, d1_ * d1_ * tot], [ss, ss], "Frobenius distance")
    cx.check(d0 >= 0 and d1_ >= 0, "distances are not negative")
