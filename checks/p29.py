"""P29: reportable quantities."""
import copy
import pickle
import numpy as np
from symex.harness import harness, land, lor, lnot, ite
from pygsti.objects import reportableqty as RQ, Label

MODS = ['pygsti.objects.reportableqty']
COMMON = dict(modules=MODS, kinds='fc', limit=200)
META = {'assumptions': ['values and error bars are symbolic reals or complex numbers: scalars, vectors of 3 and matrices of 2x2; rendering to text formats is outside, the values handed to the formatter are checked',
                        'logarithms of positive real values only']}
Q = RQ.ReportableQty
KINDS = ['r', 'c', 'rv', 'cv', 'rm', 'cm']


def val(cx, nm, k):
    if k == 'r':
        return cx.real(nm, -2., 2.)
    if k == 'c':
        return cx.cplx(nm, -2., 2.) if hasattr(cx, 'cplx') else cx.cplxmx(nm, 1, 1)[0, 0]
    n, m = (3, 1) if k[1] == 'v' else (2, 2)
    a = cx.realmx(nm, n, m, lo=-2., hi=2.) if k[0] == 'r' else cx.cplxmx(nm, n, m, lo=-2., hi=2.)
    return a.reshape((3,)) if k[1] == 'v' else a


def items(x):
    if hasattr(x, 'shape') and getattr(x, 'shape', ()) != ():
        return [x[i] for i in np.ndindex(*x.shape)]
    return [x]


def same(cx, a, b, msg, tol=1e-7):
    a, b = items(a), items(b)
    cx.check(len(a) == len(b), msg + ' (number of elements)')
    cx.check_close(a, b, msg, tol=tol)


def qty(cx, k, eb, nm):
    v = val(cx, 'v', k)
    e = val(cx, 'e', k) if eb else None
    return Q(v, e, nm), v, e


def is_(cx, q, v, e, nm, msg):
    cx.check(isinstance(q, Q), msg + ': type')
    same(cx, q.value, v, msg + ': value')
    cx.check(q.has_eb() == (e is not None), msg + ': presence of an error bar')
    if e is not None:
        same(cx, q.errbar, e, msg + ': error bar')
        cx.check(bool(q.nonMarkovianEBs) == bool(nm), msg + ': kind of error bar')
        x, y = q.get_value_and_err_bar()
        cx.check(x is q.value and y is q.errbar and q.get_value() is q.value and q.get_err_bar() is q.errbar, msg + ': accessors')


P3 = [dict(k=k, eb=e, nm=n) for k in KINDS for e, n in ((0, 0), (1, 0), (1, 1))]


@harness(params=P3, encodes=['ReportableQty.__add__', 'ReportableQty.__mul__', 'ReportableQty.__truediv__', 'ReportableQty.scale', 'ReportableQty.__copy__', 'ReportableQty.__deepcopy__', 'ReportableQty.__getstate__', 'ReportableQty.__setstate__', 'ReportableQty.from_val'],
         bounds='scalars, 3-vectors, 2x2 matrices with real or complex entries of absolute parts up to 2, factors in [-2,2] away from 0 in quotients', **COMMON)
def arithmetic(cx):
    k, nm = cx.p['k'], bool(cx.p['nm'])
    q, v, e = qty(cx, k, cx.p['eb'], nm)
    x = cx.real('x', -2., 2.)
    d = cx.choice('d', [.5, -2., 4.])
    v0, e0 = copy.deepcopy(v), copy.deepcopy(e)
    f = lambda a, op: None if a is None else op(a)
    is_(cx, q, v0, e0, nm, 'construction')
    is_(cx, q + x, v0 + x, e0, nm, 'sum')
    is_(cx, q * x, v0 * x, f(e0, lambda a: a * x), nm, 'product')
    is_(cx, q / d, v0 / d, f(e0, lambda a: a / d), nm, 'quotient')
    is_(cx, q, v0, e0, nm, 'operand after arithmetic')
    is_(cx, copy.copy(q), v0, e0, nm, 'copy')
    c = copy.deepcopy(q)
    is_(cx, c, v0, e0, nm, 'deep copy')
    if not cx.symbolic:
        is_(cx, pickle.loads(pickle.dumps(q)), v0, e0, nm, 'pickled')
    s = Q.__new__(Q)
    s.__setstate__(q.__getstate__())
    is_(cx, s, v0, e0, nm, 'state')
    c.scale(x)
    is_(cx, c, v0 * x, f(e0, lambda a: a * x), nm, 'scaled')
    is_(cx, q, v0, e0, nm, 'original of a scaled deep copy')
    w = Q.from_val((v, e), nm) if e is not None else Q.from_val(v, nm)
    is_(cx, w, v0, e0, nm, 'wrapped')
    cx.check(Q.from_val(q) is q, 'wrapping a quantity')
    if k[1:]:
        cx.check(q.size == len(items(v0)), 'size')
        is_(cx, q.reshape((len(items(v0)), 1)), v0.reshape((len(items(v0)), 1)), f(e0, lambda a: a.reshape((len(items(v0)), 1))), nm, 'reshaped')


@harness(params=P3, encodes=['ReportableQty.real', 'ReportableQty.imag', 'ReportableQty.absdiff', 'ReportableQty.infidelity_diff'],
         bounds='as arithmetic, every constant', **COMMON)
def parts(cx):
    """parts and differences act on value and error bar alike"""
    k, nm = cx.p['k'], bool(cx.p['nm'])
    q, v, e = qty(cx, k, cx.p['eb'], nm)
    c = val(cx, 'c', k)
    f = lambda a, op: None if a is None else op(a)
    re = lambda a: cx.array([x.real for x in items(a)], np.shape(a), 'f') if k[1:] else a.real
    im = lambda a: cx.array([x.imag for x in items(a)], np.shape(a), 'f') if k[1:] else a.imag
    ab = lambda a: [ite(x >= 0, x, -x) for x in items(a)]
    is_(cx, q.real(), re(v), f(e, re), nm, 'real part')
    is_(cx, q.imag(), im(v), f(e, im), nm, 'imaginary part')
    r, i = q.absdiff(c, separate_re_im=True)
    for part, get, nmx in ((r, re, 'real'), (i, im, 'imaginary')):
        cx.check_close(items(part.value), ab(get(v) - get(c)), '%s difference' % nmx)
        cx.check(part.has_eb() == (e is not None), '%s difference: error bar' % nmx)
        if e is not None:
            cx.check_close(items(part.errbar), ab(get(e)), '%s difference: error bar' % nmx)
            cx.check(bool(part.nonMarkovianEBs) == nm, 'kind of error bar')
    g = q.infidelity_diff(c)
    cx.check_close(items(g.value), [1 - x.real * y.real - x.imag * y.imag for x, y in zip(items(c), items(v))], 'infidelity difference')
    cx.check(g.has_eb() == (e is not None), 'infidelity difference: error bar')
    if e is not None:
        t = [x.real * y.real + x.imag * y.imag for x, y in zip(items(c), items(e))]
        cx.check(land(*[x >= 0 for x in items(g.errbar)]), 'negative error bar')
        cx.check_close([x * x for x in items(g.errbar)], [x * x for x in t], 'infidelity difference: error bar', tol=1e-6)
        cx.check(bool(g.nonMarkovianEBs) == nm, 'kind of error bar')
    d = q.absdiff(c)
    cx.check_close([x * x for x in items(d.value)], [(a - b).real**2 + (a - b).imag**2 for a, b in zip(items(v), items(c))], 'difference', tol=1e-6)
    cx.check(land(*[x >= 0 for x in items(d.value)]), 'negative difference')
    if e is not None:
        cx.check_close([x * x for x in items(d.errbar)], [a.real**2 + a.imag**2 for a in items(e)], 'difference: error bar', tol=1e-6)
        cx.check(land(*[x >= 0 for x in items(d.errbar)]) and bool(d.nonMarkovianEBs) == nm, 'difference: error bar')


@harness(params=[dict(n=n, eb=e) for n in (2, 3) for e in (0, 1)], encodes=['ReportableQty.hermitian_to_real'], bounds='every Hermitian 2x2 and 3x3 matrix with entries up to 2', **COMMON)
def hermitian(cx):
    """the real form of a Hermitian matrix has the real parts above and the imaginary parts below the diagonal; others are refused"""
    n = cx.p['n']

    def herm(nm):
        a = cx.realmx(nm + 'r', n, n, lo=-2., hi=2.)
        b = cx.realmx(nm + 'i', n, n, lo=-2., hi=2.)
        return a, b, cx.array([(a[i, j] + 1j * b[i, j] if i < j else a[j, i] - 1j * b[j, i] if j < i else a[i, i] + 0j) for i in range(n) for j in range(n)], (n, n), 'c')
    a, b, m = herm('v')
    ea, eb_, e = herm('e') if cx.p['eb'] else (None, None, None)
    q = Q(m, e, True).hermitian_to_real()
    cx.check_close(items(q.value), [a[i, j] if i <= j else b[j, i] for i in range(n) for j in range(n)], 'value')
    cx.check(q.has_eb() == bool(cx.p['eb']), 'presence of the error bar')
    if e is not None:
        cx.check_close(items(q.errbar), [ea[i, j] if i <= j else eb_[j, i] for i in range(n) for j in range(n)], 'error bar')
        cx.check(q.nonMarkovianEBs, 'kind of error bar')
    d = cx.real('d', .01, 1.)
    i, j = cx.choice('i', range(n)), cx.choice('j', range(n))
    m2 = m.copy()
    m2[i, j] = m2[i, j] + d * 1j
    cx.check_raises(lambda: Q(m2).hermitian_to_real(), 'a matrix that is not Hermitian is accepted', ValueError)


@harness(encodes=['minimum', 'maximum', 'ReportableQty.render_with', 'ReportableQty.mod', 'ReportableQty.from_val'], bounds='every pair of real values in [-2,2]', **COMMON)
def choose(cx):
    """minimum and maximum; what is handed to the formatter; wrapping of labels and tuples"""
    x, y, e = cx.real('x', -2., 2.), cx.real('y', -2., 2.), cx.real('e', 0., 1.)
    a, b = Q(x, e), Q(y)
    lo, hi = RQ.minimum(a, b), RQ.maximum(a, b)
    cx.check(land(lo.value <= x, lo.value <= y, hi.value >= x, hi.value >= y), 'extremes')
    cx.check(lo in (a, b) if not cx.symbolic else any(lo is z for z in (a, b)) and any(hi is z for z in (a, b)), 'extremes are the given quantities')
    nm = cx.choice('nm', [False, True])
    nmf = cx.choice('nmf', [None, '%s nm %s'])
    for q in (Q(x, e, nm), Q(x)):
        got = []

        def f(v, specs):
            got.append((v, specs.get('formatstring')))
            return 'T%d' % len(got)
        out = q.render_with(f, {'formatstring': 'F'}, '%s pm %s', nmf)
        want = [x, e] if q.has_eb() else [x]
        cx.check_close([v for v, _ in got], want, 'values handed to the formatter')
        cx.check([s for _, s in got] == (['%s', '%s'] if q.has_eb() else ['F']), 'format strings')
        cx.check(out == ('T1' if not q.has_eb() else 'T1 nm T2' if nm and nmf else 'T1 pm T2'), 'rendered form')
    l = Label('Gx', 0)
    q = Q.from_val(l)
    cx.check(q.value is l and not q.has_eb(), 'a label is a value')
    cx.check_raises(lambda: Q.from_val((x, e, y)), 'a tuple of three is accepted', AssertionError)


@harness(params=[dict(k=k, eb=e) for k in ('r', 'rv') for e in (0, 1)], encodes=['ReportableQty.log', 'ReportableQty.mod'],
         bounds='positive real values in [1/8,2], error bars in [0,1], moduli 1/2 and 1', **COMMON)
def log_and_mod(cx):
    """logarithm and modulus of value and error bar"""
    n = 1 if cx.p['k'] == 'r' else 3
    mk = lambda l: l[0] if n == 1 else cx.array(list(l), (n,), 'f')
    v, e = mk(cx.reals('v', n, .125, 2.)), mk(cx.reals('e', n, 0., 1.)) if cx.p['eb'] else None
    ln = RQ._np.log
    nm = cx.choice('nm', [False, True])
    is_(cx, Q(v, e, nm).log(), ln(v), None if e is None else ln(v + e) - ln(v), nm, 'logarithm')
    m = cx.choice('m', [.5, 1.])
    q = Q(v, e, nm).mod(m)
    for x, y in list(zip(items(q.value), items(v))) + (list(zip(items(q.errbar), items(e))) if e is not None else []):
        cx.check(land(x >= 0, x < m), 'remainder')
        cx.check(lor(*[land(x - (y - i * m) <= 1e-9, x - (y - i * m) >= -1e-9) for i in range(5)]), 'remainder differs by a multiple of the modulus')
    cx.check(q.has_eb() == (e is not None) and (e is None or bool(q.nonMarkovianEBs) == nm), 'error bar of a remainder')
