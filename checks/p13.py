"""P13: predicted probabilities follow the Born rule for the model given (objects/matrixforwardsim, mapforwardsim, forwardsim, model)."""
import numpy as np
from symex.harness import harness, land, lor, lnot
from pygsti.objects import operation as OP
from pygsti.objects import spamvec as SV
from pygsti.objects import povm as PV
from pygsti.objects import ExplicitOpModel, Circuit
from pygsti.objects.labeldicts import StateSpaceLabels
from checks.p15 import mm, mv, I, conc, embed_ref
from checks.simmodel import MODELS, MODS, M, params, vfull, vstat, gfull, un, rows

META = {'assumptions': ['models are built from concrete starting values on a two-dimensional space (a classical bit; the formulas do not depend on what the space stands for), two-qubit state vectors '
                        'or a product of two such spaces; every model parameter is then a symbolic real in a box around its starting value',
                        'the Python representations (slowreplib) are encoded, not the compiled ones', 'circuits are the listed ones; the evaluation trees built for symbolic circuits are checked in P12']}
COMMON = dict(modules=MODS, limit=300)
CIRCS = {'full': [('Gx',), ('rho1', 'Gx', 'Gy', 'Mb'), ('Gx', 'Gy', 'Gx'), (), ('rho1',), ('Gx',), ('Gx', 'Mb')],
         'tp': [('Gx', 'Gx', 'Gy'), ('Gy',), (), ('Gx', 'Gx'), ('Gx', 'Gx', 'Gx', 'Gx', 'Gy')],
         'mix': [('Gc', 'Gx'), ('rho1', 'Gy', 'Gx', 'Gc'), ('Gy', 'Gy'), ('Gx',)],
         'inst': [('Iz',), ('Gx', 'Iz', 'Gy'), ('Iz', 'Gx', 'Iz'), ('Gx',), ('Iz', 'Gx')]}
B13 = 'parameters within 1/16 of the starting values; lists of up to 7 circuits of length up to 5'


def setup(cx, box=.0625, cache=None):
    md = MODELS[cx.p['m']]
    m = md.build(cx.p['sim'], cache)
    v = params(cx, m, box)
    m.from_vector(cx.array(list(v), (len(v),), 'f'))
    return md, m, v, md.refs(m, v)


def expected(md, refs, c): return [(o, md.prob(refs, path)) for o, path in md.outcomes(c)]


@harness(params=[dict(m=k, sim=s) for k in MODELS for s in ('matrix', 'map')], kinds='fc',
         encodes=['ForwardSimulator.probs', 'MatrixForwardSimulator.prs', 'MatrixForwardSimulator.product', 'MapForwardSimulator.prs', 'OpModel.probs', 'OpModel.simplify_circuit', 'propagate_staterep'], bounds=B13, **COMMON)
def probs(cx):
    """probabilities of single circuits"""
    md, m, v, refs = setup(cx)
    for c, C in zip(CIRCS[cx.p['m']], md.circuits(CIRCS[cx.p['m']])):
        got = m.probs(C)
        want = expected(md, refs, c)
        cx.check(list(got.keys()) == [o for o, _ in want], "outcomes of %s" % (c,))
        cx.check_close([got[o] for o, _ in want], [p for _, p in want], "probabilities of %s" % (c,))


@harness(params=[dict(m=k, sim=s) for k in MODELS for s in ('matrix', 'map')] + [dict(m=k, sim='map', cache=n) for k in ('full', 'mix') for n in (0, 1, 2)], kinds='fc',
         encodes=['ForwardSimulator.bulk_probs', 'MatrixForwardSimulator.bulk_fill_probs', 'MatrixForwardSimulator._compute_product_cache', 'MapForwardSimulator.bulk_fill_probs', 'DM_mapfill_probs_block', 'OpModel.bulk_probs',
                  'OpModel.simplify_circuits'], bounds=B13 + '; both orders of the list; map caches of 0, 1, 2 or unlimited states', **COMMON)
def bulk(cx):
    """probabilities of lists of circuits"""
    md, m, v, refs = setup(cx, cache=cx.p.get('cache'))
    cs = CIRCS[cx.p['m']]
    for cs in (cs, cs[::-1]):
        Cs = md.circuits(cs)
        got = m.bulk_probs(Cs)
        cx.check(list(got) == list(dict.fromkeys(Cs)), "circuits")
        for c, C in zip(cs, Cs):
            want = expected(md, refs, c)
            cx.check(list(got[C]) == [o for o, _ in want], "outcomes of %s" % (c,))
            cx.check_close([got[C][o] for o, _ in want], [p for _, p in want], "probabilities of %s" % (c,))


SPLITS = [dict(minSubtrees=2), dict(minSubtrees=3), dict(maxTreeSize=6)]


@harness(params=[dict(m=k, sim=s, k=i) for k in MODELS for s in ('matrix', 'map') for i in range(3)], kinds='fc',
         encodes=['MatrixForwardSimulator.bulk_fill_probs', 'MapForwardSimulator.bulk_fill_probs', 'OpModel.bulk_evaltree', 'EvalTree.final_element_indices', 'EvalTree.distribute'], bounds=B13 + '; trees split into 2 or 3 parts or to 6 items', **COMMON)
def split(cx):
    """filling an array with the probabilities of a split evaluation tree"""
    md, m, v, refs = setup(cx)
    cs = CIRCS[cx.p['m']]
    tree, lookup, outs = m.bulk_evaltree(md.circuits(cs), **SPLITS[cx.p['k']])
    got = cx.array([0.] * tree.num_final_elements(), (tree.num_final_elements(),), 'f')
    m.bulk_fill_probs(got, tree)
    for i, c in enumerate(cs):
        want = expected(md, refs, c)
        els = list(range(*lookup[i].indices(len(got)))) if isinstance(lookup[i], slice) else [int(x) for x in lookup[i]]
        cx.check([tuple(o) for o in outs[i]] == [o for o, _ in want], "outcomes of %s" % (c,))
        cx.check_close([got[e] for e in els], [p for _, p in want], "probabilities of %s" % (c,))


@harness(params=[dict(m=k, sim=s) for k in ('tp', 'mix') for s in ('matrix', 'map')], kinds='fc', encodes=['bulk_fill_probs', 'ForwardSimulator.probs'], bounds='two symbolic model parameters within 1/16 of their starting values; symbolic clipping limits', **COMMON)
def clip(cx):
    """clipped probabilities are the nearest values inside the limits"""
    md = MODELS[cx.p['m']]
    m = md.build(cx.p['sim'])
    v = [float(x) for x in m.to_vector()]
    for i in (0, len(v) - 1): v[i] = cx.real('v%d' % i, v[i] - .0625, v[i] + .0625)
    m.from_vector(cx.array(list(v), (len(v),), 'f'))
    refs = md.refs(m, v)
    lo = cx.real('lo', .25, .3125)
    hi = cx.real('hi', .5, .625)
    cs = [('Gx',), ('Gx', 'Gx')]
    Cs = md.circuits(cs)
    got = m.bulk_probs(Cs, clipTo=(lo, hi))
    for c, C in zip(cs, Cs):
        one = m.probs(C, clipTo=(lo, hi))
        for o, p in expected(md, refs, c):
            for g in (got[C][o], one[o]):
                cx.check(land(g >= lo - 1e-9, g <= hi + 1e-9), "inside the limits")
                cx.check(lor(abs(g - p) <= 1e-7, land(p <= lo + 1e-9, abs(g - lo) <= 1e-7), land(p >= hi - 1e-9, abs(g - hi) <= 1e-7)), "the probability or the nearest limit")


@harness(params=[dict(sim=s) for s in ('matrix', 'map')], kinds='fc', encodes=['MatrixForwardSimulator.prs', 'MapForwardSimulator.prs', 'bulk_fill_probs'], bounds=B13, **COMMON)
def normalised(cx):
    """probabilities of a trace-preserving model add up to one"""
    s = 2**-.25
    md = M({'rho0': SV_tp([s, .25])}, {'Mdefault': tpov_id()}, {'Gx': MODELS['tp'].ops['Gx'], 'Gy': MODELS['tp'].ops['Gy']})
    m = md.build(cx.p['sim'])
    v = params(cx, m, 2.)
    m.from_vector(cx.array(list(v), (len(v),), 'f'))
    cs = [('Gx', 'Gy', 'Gx'), (), ('Gy', 'Gy')]
    got = m.bulk_probs(md.circuits(cs)) if cx.p['sim'] == 'map' else None
    for C in md.circuits(cs):
        cx.check_close([sum(m.probs(C).values())], [1.], "sum of the probabilities of %s" % (C,))
        if got: cx.check_close([sum(got[C].values())], [1.], "sum of the probabilities of %s" % (C,))


def SV_tp(a):
    from checks.simmodel import vtp
    return vtp(a)


def tpov_id():
    """effects adding up to the functional that reads off the (fixed) first element of states, scaled to one"""
    from checks.simmodel import tpov
    s = 2**.25
    return tpov([.5, .25], [.25, .125], [s - .75, -.375])


# ---- products

@harness(params=[dict(m=k) for k in ('full', 'mix', 'tp')], kinds='fc', encodes=['MatrixForwardSimulator.product', 'MatrixForwardSimulator.bulk_product', 'MatrixForwardSimulator._compute_product_cache', 'OpModel.product', 'OpModel.bulk_product'],
         bounds=B13, **COMMON)
def product(cx):
    """products of gates in time order, scaled and not, alone and in bulk"""
    cx.p = dict(cx.p, sim='matrix')
    md, m, v, refs = setup(cx)
    ls = list(md.ops)
    cs = [(ls[0], ls[1], ls[0]), (), (ls[1],), (ls[1], ls[-1], ls[-1], ls[0])]
    want = []
    for c in cs:
        G = I(2)
        for l in c: G = mm(refs[l], G)
        want.append(sum(G, []))
    Cs = [Circuit(c) for c in cs]
    for c, C, w in zip(cs, Cs, want):
        g = m.product(C)
        cx.check_close([g[i, j] for i in range(2) for j in range(2)], w, "product of %s" % (c,))
        g, s = m.product(C, bScale=True)
        cx.check_close([g[i, j] * s for i in range(2) for j in range(2)], w, "scaled product of %s" % (c,))
    tree, _, _ = m.bulk_evaltree(md.circuits(cs))
    g = m.bulk_product(tree)
    cx.check_shape(g, (4, 2, 2), "bulk product")
    perm = list(range(4))
    order = [tuple(str(x) for x in c) for c in tree.generate_circuit_list()]
    gs, ss = m.bulk_product(tree, bScale=True)
    for k, o in enumerate(order):
        o = tuple(x for x in o if x not in md.preps)
        w = want[[tuple(c) for c in cs].index(o)]
        cx.check_close([g[k, i, j] for i in range(2) for j in range(2)], w, "bulk product of %s" % (o,))
        cx.check_close([gs[k, i, j] * ss[k] for i in range(2) for j in range(2)], w, "scaled bulk product of %s" % (o,))


@harness(params=[dict(n=n) for n in (0, 1, 2)], kinds='fc', encodes=['MatrixForwardSimulator.product', 'MatrixForwardSimulator._compute_product_cache', 'MatrixForwardSimulator.bulk_fill_probs'],
         bounds='gates of norm above one whose products vanish up to 1e-120 times a symbolic factor; circuits of 2-4 gates', **COMMON)
def tiny(cx):
    """products that become tiny are rescaled without changing what is predicted"""
    e = 1e-120
    k = cx.p['n']
    a, b, c, d = (cx.real(x, lo, hi) for x, lo, hi in (('a', 2, 3), ('b', 1, 2), ('c', 1, 2), ('d', .5, 1)))
    mats = {'Gx': [[0., a], [0., 0.]], 'Gy': [[0., b], [e * c, 0.]], 'Gz': [[d, 0.], [0., 2.]]}
    md = M({'rho0': vstat([.75, .5])}, {'Mdefault': ('un', [('0', vstat([.75, .25], 'effect')), ('1', vstat([.5, .5], 'effect'))])}, {l: gfull([[1., .5], [.25, 1.]]) for l in mats})
    m = md.build('matrix')
    w = [None] * m.num_params()
    for l, x in mats.items():
        for i, y in zip(m.operations[l].gpindices_as_array(), sum(x, [])): w[int(i)] = y
    m.from_vector(cx.array(w, (len(w),), 'f'))
    refs = md.refs(m, w)
    cs = [[('Gx', 'Gx'), ('Gz', 'Gx', 'Gx')], [('Gz', 'Gy', 'Gx'), ('Gy', 'Gx')], [('Gy', 'Gy', 'Gy'), ('Gz', 'Gx', 'Gy', 'Gz')]][k]
    f = 1e120 if k else 1.
    Cs = md.circuits(cs)
    got = m.bulk_probs(Cs)
    for c, C in zip(cs, Cs):
        want = [p for _, p in expected(md, refs, c)]
        one = list(m.probs(C).values())
        G, s = m.product(C, bScale=True)
        P = I(2)
        for l in c: P = mm(refs[l], P)
        z = f if all(abs(x) < 1e-100 for x in want) else 1.
        cx.check_close([x * z for x in got[C].values()], [x * z for x in want], "bulk probabilities of %s" % (c,))
        cx.check_close([x * z for x in one], [x * z for x in want], "probabilities of %s" % (c,))
        cx.check_close([G[i, j] * s * z for i in range(2) for j in range(2)], [x * z for x in sum(P, [])], "scaled product of %s" % (c,))


# ---- state vectors, products of spaces

def sv_model(sim):
    m = ExplicitOpModel(['Q0'], evotype='statevec', sim_type=sim)
    m['rho0'] = SV.FullSPAMVec(np.array([.75, .25j]), 'statevec', 'prep')
    m.povms['Mdefault'] = PV.UnconstrainedPOVM([('0', SV.StaticSPAMVec(np.array([.5, .25 - .5j]), 'statevec', 'effect')), ('1', SV.FullSPAMVec(np.array([.25j, .5]), 'statevec', 'effect'))])
    m['Gx'] = OP.FullDenseOp(np.array([[.5, .25j], [.25 - .5j, 1j]]))
    m['Gs'] = OP.StaticDenseOp(np.array([[.5, -.5j], [.5j, .25]]))
    m.to_vector()
    return m


@harness(params=[dict(sim=s) for s in ('matrix', 'map')], kinds='fc', encodes=['MatrixForwardSimulator.prs', 'MapForwardSimulator.prs', 'DM_mapfill_probs_block', 'SVStateRep', 'SVEffectRep'], bounds='one qubit, all parameters in [-1,1]', **COMMON)
def statevec(cx):
    """state-vector models: probabilities are squared moduli of amplitudes"""
    m = sv_model(cx.p['sim'])
    v = params(cx, m, 1., np.zeros(m.num_params()))
    m.from_vector(cx.array(list(v), (len(v),), 'f'))

    def loc(o): return [v[int(i)] for i in o.gpindices_as_array()]
    r, g = loc(m.preps['rho0']), loc(m.operations['Gx'])
    rho = [r[i] + 1j * r[2 + i] for i in range(2)]
    G = {'Gx': [[g[2 * i + j] + 1j * g[4 + 2 * i + j] for j in range(2)] for i in range(2)], 'Gs': [[.5 + 0j, -.5j], [.5j, .25 + 0j]]}
    e = loc(m.povms['Mdefault'])
    E = {'0': [.5 + 0j, .25 - .5j], '1': [e[0] + 1j * e[2], e[1] + 1j * e[3]]}
    cs = [('Gx',), (), ('Gs', 'Gx'), ('Gx', 'Gx')]
    bulk = m.bulk_probs([Circuit(c) for c in cs]) if cx.p['sim'] == 'map' else None
    for c in cs:
        s = rho
        for l in c: s = mv(G[l], s)
        got = m.probs(Circuit(c))
        for o in E:
            a = sum(x.conjugate() * y for x, y in zip(E[o], s))
            want = (a * a.conjugate()).real
            cx.check_close(got[o], want, "probability of %s" % (c,))
            if bulk: cx.check_close(bulk[Circuit(c)][o], want, "bulk probability of %s" % (c,))


def emb_model(sim, dense):
    m = ExplicitOpModel([('L%d' % i,) for i in range(4)], 'std', sim_type=sim) if 0 else None
    ss = StateSpaceLabels([('L%d' % i,) for i in range(4)], dims=[(1,)] * 4)
    m = ExplicitOpModel(ss, 'std', sim_type=sim)
    two = StateSpaceLabels([('A', 'B')], dims=[(2, 2)])
    E = OP.EmbeddedDenseOp if dense else OP.EmbeddedOp
    Cm = OP.ComposedDenseOp if dense else OP.ComposedOp
    m['rho0'] = SV.TensorProdSPAMVec('prep', [SV.FullSPAMVec([.75, .5]), SV.FullSPAMVec([.5, .25])])
    m.povms['Mdefault'] = PV.TensorProdPOVM([PV.UnconstrainedPOVM([('0', SV.FullSPAMVec([.75, .25], 'auto', 'effect')), ('1', SV.StaticSPAMVec([.5, .5], 'auto', 'effect'))]) for _ in range(2)])
    g = OP.LinearlyParamDenseOp(np.array([[.75, .25], [.125, .5]]), OP._np.zeros(2), {0: [(0, 0)], 1: [(0, 1), (1, 1)]}, real=True)
    m['Ga'] = E(two, ('A',), g)
    m['Gb'] = E(two, ('B',), OP.TPDenseOp(np.array([[1., 0.], [.25, .5]])))
    m['Gc'] = Cm([m.operations['Ga'], E(two, ('B', 'A'), OP.StaticDenseOp(conc(3, 4, 4)))])
    m.to_vector()
    return m


@harness(params=[dict(sim=s, d=d) for s, d in (('matrix', True), ('map', True), ('map', False))], kinds='fc',
         encodes=['EmbeddedOp', 'ComposedOp', 'TensorProdSPAMVec', 'TensorProdPOVM', 'MatrixForwardSimulator', 'MapForwardSimulator', 'DMOpRep_Embedded', 'DMOpRep_Composed', 'DMEffectRep_TensorProd'],
         bounds='two two-dimensional factors; parameters within 1/16 of the starting values', **COMMON)
def embedded(cx):
    """models built of embedded, composed and tensor-product members: dense matrices and maps predict the same, also where members share parameters"""
    m = emb_model(cx.p['sim'], cx.p['d'])
    v = params(cx, m)
    m.from_vector(cx.array(list(v), (len(v),), 'f'))

    def loc(o): return [v[int(i)] for i in o.gpindices_as_array()]
    r = loc(m.preps['rho0'])
    a, b = loc(m.operations['Ga']), loc(m.operations['Gb'])
    cx.check(len(v) == 4 + 4 + 2 + 2, "the composed gate shares the parameters of its factor")
    ga = [[.75 + a[0], .25 + a[1]], [.125, .5 + a[1]]]
    G = {'Ga': embed_ref(ga, (2, 2), (0,)), 'Gb': embed_ref([[1., 0.], b], (2, 2), (1,))}
    G['Gc'] = mm(embed_ref([[float(x) for x in y] for y in conc(3, 4, 4)], (2, 2), (1, 0)), G['Ga'])
    rho = [x * y for x in r[:2] for y in r[2:]]
    e = loc(m.povms['Mdefault'])
    ef = [{'0': e[:2], '1': [.5, .5]}, {'0': e[2:], '1': [.5, .5]}]
    cs = [('Ga', 'Gb'), ('Gc',), (), ('Gb', 'Gc')]
    bulk = m.bulk_probs([Circuit(c) for c in cs])
    for c in cs:
        s = rho
        for l in c: s = mv(G[l], s)
        got = m.probs(Circuit(c))
        cx.check(sorted(got) == [(x + y,) for x in '01' for y in '01'], "outcomes")
        for x in '01':
            for y in '01':
                w = sum(z * t for z, t in zip([p * q for p in ef[0][x] for q in ef[1][y]], s))
                cx.check_close([got[x + y], bulk[Circuit(c)][x + y]], [w, w], "probability of %s in %s" % (x + y, c))
