"""P16: polynomial arithmetic is exact (objects/polynomial, replib/slowreplib.PolyRep, opcalc/slowopcalc)."""
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects import polynomial as PM
from pygsti.objects.replib import slowreplib as RL
from pygsti.objects.opcalc import slowopcalc as OC
import pygsti.objects.opcalc as OCI

P = PM.FASTPolynomial
MODS = ['pygsti.objects.polynomial', 'pygsti.objects.replib.slowreplib', 'pygsti.objects.opcalc.slowopcalc', 'pygsti.objects.opcalc']
META = {'assumptions': ['the pure-Python polynomial representation and compact evaluator are encoded (the compiled ones are outside the technique)',
                        'coefficients and evaluation points are symbolic reals in [-2, 2] (complex coefficients where stated); monomials come from the stated lists']}
BIG = 2**20 - 1  # three indices per packed integer: degree 4 and up uses several packed integers
SUPP = [[()], [(0,)], [(), (1,)], [(0, 0), (0, 1)], [(2,), (0, 2, 2)], [(0, 1, 2), (), (1, 1)], []]
LONG = [[(0, 0, 1, 2)], [(1,), (0, 1, 1, 2, 2)], [(0, 0, 0), (0, 0, 0, 0)], [(2, 2, 2, 2, 2, 2, 2)]]
SUPPV = {3: SUPP, 100: SUPP, BIG: SUPP[:5] + LONG}
COMMON = dict(modules=MODS, kinds='fc')


def poly(cx, nm, supp, mv, cplx=False):
    """(Polynomial, model dict) with symbolic coefficients on the given monomials"""
    d = {}
    for k, mono in enumerate(supp):
        c = cx.real('%s%d' % (nm, k), -2, 2)
        if cplx:
            c = c + 1j * cx.real('%si%d' % (nm, k), -2, 2)
        d[mono] = c
    return P(dict(d), mv), d


def madd(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            k = tuple(sorted(k))
            out[k] = out[k] + v if k in out else v
    return out


def mmul(a, b):
    return madd(*[{tuple(sorted(k1 + k2)): v1 * v2} for k1, v1 in a.items() for k2, v2 in b.items()])


def mscale(a, x):
    return {k: v * x for k, v in a.items()}


def mderiv(a, w):
    return madd(*[{k[:k.index(w)] + k[k.index(w) + 1:]: k.count(w) * v} for k, v in a.items() if w in k])


def meval(d, x):
    t = 0
    for k, v in d.items():
        for i in k:
            v = v * x[i]
        t = t + v
    return t


def agree(cx, p, d, msg):
    got = p.coeffs
    for k in got:
        cx.check(k == tuple(sorted(k)), msg + ": keys are sorted index tuples")
    for k in set(got) | set(d):
        cx.check_close(got.get(k, 0), d.get(k, 0), msg + ": coefficient of %s" % (k,))


@harness(params=[{'mv': m} for m in SUPPV], encodes=['FASTPolynomial.__init__', 'FASTPolynomial.coeffs', 'FASTPolynomial.mult', 'FASTPolynomial.__add__', 'FASTPolynomial.__iadd__',
                                                      'FASTPolynomial.product', 'FASTPolynomial.scalar_mult', 'FASTPolynomial.__mul__', 'PolyRep.mult', 'PolyRep.add_inplace', 'PolyRep.scale'],
         bounds='all pairs of 7 (9) supports of up to 3 monomials and degree 7 in 3 variables, packed 3, 9 or 31 indices per integer; real coefficients', **COMMON)
def ring(cx):
    mv = cx.p['mv']
    S = SUPPV[mv]
    (p, a), (q, b) = poly(cx, 'a', cx.choice('sa', S), mv), poly(cx, 'b', cx.choice('sb', S), mv)
    s = cx.real('s', -2, 2)
    agree(cx, p, a, "constructed")
    agree(cx, p + q, madd(a, b), "sum")
    agree(cx, p * q, mmul(a, b), "product")
    agree(cx, P.product([p, q, p]), mmul(mmul(a, b), a), "product of a list")
    agree(cx, p * s, mscale(a, s), "scalar product")
    agree(cx, s * p if not cx.symbolic else p.__rmul__(s), mscale(a, s), "scalar product from the left")
    agree(cx, p.scalar_mult(s), mscale(a, s), "scalar_mult")
    agree(cx, p, a, "operands unchanged")
    agree(cx, q, b, "operands unchanged")
    r = p.copy()
    r += q
    agree(cx, r, madd(a, b), "in-place sum")
    r.scale(s)
    agree(cx, r, mscale(madd(a, b), s), "in-place scale")
    agree(cx, p, a, "copy is independent")
    cx.check(p.get_degree() == max([len(k) for k in a], default=0), "degree")


@harness(params=[{'mv': m} for m in SUPPV], encodes=['FASTPolynomial.__pow__'], bounds='powers 0..5 (7 thorough) of supports of up to 2 monomials', **COMMON)
def power(cx):
    mv = cx.p['mv']
    p, a = poly(cx, 'a', cx.choice('sa', [[(0,)], [(), (1,)], [(0, 1), (2,)], [()]]), mv)
    n = cx.choice('n', range(8 if cx.tier == 'thorough' else 6))
    want = {(): 1.0}
    for _ in range(n):
        want = mmul(want, a)
    agree(cx, p ** n, want, "power %d" % n)
    agree(cx, p, a, "base unchanged")


@harness(params=[{'mv': m} for m in SUPPV], encodes=['FASTPolynomial.deriv', 'FASTPolynomial.evaluate', 'FASTPolynomial.compact', 'PolyRep.compact_real', 'PolyRep.compact_complex',
                                                      'slowopcalc.bulk_eval_compact_polys', 'opcalc.safe_bulk_eval_compact_polys', 'bulk_load_compact_polys'],
         bounds='all supports, derivative by each variable, symbolic point', **COMMON)
def calculus(cx):
    mv = cx.p['mv']
    p, a = poly(cx, 'a', cx.choice('sa', SUPPV[mv]), mv)
    x = cx.reals('x', 3, -2, 2)
    cx.check_close(p.evaluate(x), meval(a, x), "evaluation")
    for w in range(3):
        agree(cx, p.deriv(w), mderiv(a, w), "derivative by x%d" % w)
    agree(cx, p, a, "operand unchanged")
    xv = cx.array(x, (3,), 'f')
    for kind in (True, False):
        vt, ct = p.compact(kind)
        v = OC.bulk_eval_compact_polys(vt, ct, xv, (1,))
        cx.check_close(v[0], meval(a, x), "compact evaluation (complex tape: %s)" % kind)
        r = PM.bulk_load_compact_polys(vt, ct, max_num_vars=mv)
        cx.check(len(r) == 1, "one polynomial loaded")
        agree(cx, r[0], a, "compact form read back")


@harness(params=[{'mv': m} for m in SUPPV], encodes=['FASTPolynomial.map_indices', 'FASTPolynomial.map_indices_inplace', 'FASTPolynomial.mapvec_indices', 'FASTPolynomial.mapvec_indices_inplace',
                                                      'PolyRep.mapvec_indices_inplace', 'PolyRep.reinit'],
         bounds='all supports; index maps that permute, shift and merge variables', **COMMON)
def reindex(cx):
    mv = cx.p['mv']
    S = SUPPV[mv] + [[(0,), (1,), (2,)], [(0, 1), (1, 2), (0, 2)]]
    p, a = poly(cx, 'a', cx.choice('sa', S), mv)
    q, b = poly(cx, 'b', [(0, 2), (1,)], mv)
    m = cx.choice('map', [(0, 1, 2), (2, 0, 1), (1, 0, 2), (0, 0, 1), (2, 2, 2), (2, 1, 0)])
    want = madd(*[{tuple(m[i] for i in k): v} for k, v in a.items()])
    f = lambda k: tuple(m[i] for i in k)
    r = p.map_indices(f)
    agree(cx, r, want, "map_indices")
    agree(cx, p.mapvec_indices(np.array(m, np.int64)), want, "mapvec_indices")
    agree(cx, p, a, "operand unchanged")
    for how in (0, 1):
        c = p.copy()
        if how:
            c.map_indices_inplace(f)
        else:
            c.mapvec_indices_inplace(np.array(m, np.int64))
        agree(cx, c, want, "in-place mapping")
        agree(cx, c + q, madd(want, b), "sum after mapping")
        agree(cx, c * q, mmul(want, b), "product after mapping")
        agree(cx, P.fromrep(c.torep()), want, "representation")


@harness(encodes=['FASTPolynomial.__init__'], bounds='terms given in any order of their variables', **COMMON)
def spelling(cx):
    c = cx.reals('c', 3, -2, 2)
    keys = cx.choice('keys', [((1, 0), (0, 1), (2,)), ((2, 1, 0), (0, 2), (2, 0)), ((1, 0, 1), (0,), ())])
    p = P(dict(zip(keys, c)), 100)
    want = madd(*[{k: v} for k, v in zip(keys, c)])
    agree(cx, p, want, "terms in any order")
    x = cx.reals('x', 3, -2, 2)
    cx.check_close(p.evaluate(x), meval(want, x), "evaluation")
    vt, ct = p.compact()
    cx.check(vt[0] == len(want), "one term per monomial")
    cx.check(P(None, 5).coeffs == {}, "no terms")


@harness(params=[{'wrt': w} for w in ((0, 1, 2), (0,), (1,), (2,), (0, 2), (1, 2), ())], encodes=['slowopcalc.compact_deriv', 'slowopcalc.bulk_eval_compact_polys', 'bulk_load_compact_polys'],
         bounds='tapes of two polynomials; derivatives with respect to any ascending parameter list; symbolic complex coefficients and real point', **COMMON)
def tapes(cx):
    S = SUPP + LONG[:2]
    ps = [poly(cx, 'a', cx.choice('sa', S), 100, True), poly(cx, 'b', cx.choice('sb', S[2:] if cx.tier != 'thorough' else S), 100, True)]
    tp = [p.compact() for p, _ in ps]
    vt, ct = np.concatenate([t[0] for t in tp]), None
    flat = []
    for t in tp:
        flat.extend(list(t[1]))
    ct = cx.array(flat, (len(flat),), 'c')
    x = cx.reals('x', 3, -2, 2)
    xv = cx.array(x, (3,), 'f')
    v = OC.bulk_eval_compact_polys(vt, ct, xv, (2,))
    for i, (p, d) in enumerate(ps):
        cx.check_close(v[i], meval(d, x), "bulk evaluation %d" % i)
    v2 = OC.bulk_eval_compact_polys(vt, ct, xv, (2, 1), 'complex')
    cx.check_shape(v2, (2, 1), "destination shape")
    loaded = PM.bulk_load_compact_polys(vt, ct, max_num_vars=100)
    kept = PM.bulk_load_compact_polys(vt, ct, keep_compact=True)
    cx.check(len(loaded) == 2 and len(kept) == 2, "two polynomials loaded")
    for i, (p, d) in enumerate(ps):
        agree(cx, loaded[i], d, "loaded %d" % i)
        cx.check(len(kept[i][0]) == len(tp[i][0]) and all(int(s) == int(t) for s, t in zip(kept[i][0], tp[i][0])), "kept tape %d" % i)
    wrt = cx.p['wrt']
    dv, dc = OC.compact_deriv(vt, ct, np.array(wrt, np.int64))
    if len(wrt):
        D = OC.bulk_eval_compact_polys(dv, dc, xv, (2, len(wrt)))
        cx.check_shape(D, (2, len(wrt)), "shape of the derivatives")
        for i, (p, d) in enumerate(ps):
            for j, w in enumerate(wrt):
                cx.check_close(D[i, j], meval(mderiv(d, w), x), "derivative of %d by x%d" % (i, w))
    else:
        cx.check(len(dv) == 0 and len(dc) == 0, "no derivatives")
