"""P28: the JSON / MessagePack codec."""
import collections
import json
import uuid
import numpy as np
from symex.harness import harness, land, lor
from pygsti.io import json as J, msgpack as M, jsoncodec as JC
from pygsti import objects as O, construction as PC
from pygsti.construction import std1Q_XYI
from pygsti.objects import Label, Circuit, labeldicts as LD, reportableqty as RQ

MODS = ['pygsti.io.jsoncodec']
COMMON = dict(modules=MODS, kinds='', logic='QF_FD', limit=300)
META = {'assumptions': ['values are trees whose constructors, keys and leaves are chosen by the solver; leaves of `symbolic_leaves` are symbolic integers and Booleans; arrays are concrete',
                        'not supported by the codec and outside: frozenset, Ellipsis, ufuncs, object arrays, datetime64; numpy scalars that are also Python numbers or strings (complex128, str_) come back as these, a defaultdict as a dict',
                        'text and binary formats themselves (json, msgpack) are trusted libraries; the binary string mode of msgpack < 1 is outside']}
LEAVES = [0, -3, 2**40, 1.5, -0.0, float('inf'), True, False, None, '', 'a"\\\u00e9', b'a\x00\xff', 1 + 2j, complex(-0.0, -1.5), np.float32(1.25), np.int8(-3), np.bool_(True), np.float64(.1), uuid.UUID(int=5), '__tuple__', Label('Gx', 0), range(1, 7, 2)]
HASHABLE = [x for x in LEAVES if not isinstance(x, float) or x == x]


def same(a, b):
    """equal values of the same type, recursively"""
    if isinstance(a, float) and not isinstance(a, np.generic):
        return isinstance(b, float) and (repr(float(a)) == repr(float(b)))
    if isinstance(a, np.float64):
        return isinstance(b, float) and repr(float(a)) == repr(float(b))
    if isinstance(a, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, Label):
        return a == b and repr(a) == repr(b)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, slice):
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, set):
        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    return repr(a) == repr(b) and a == b


def native(x):
    """only what JSON represents"""
    if isinstance(x, dict):
        return all(type(k) is str and native(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(native(y) for y in x)
    return x is None or isinstance(x, (str, int, float)) and not isinstance(x, np.generic) or isinstance(x, np.float64)


def trip(cx, v, what='value', msgpack=True):
    enc = JC.encode_obj(v, False)
    cx.check(native(enc), what + ': encoded with something that is not JSON')
    cx.check(same(v, JC.decode_obj(enc, False)), what + ': encoding and decoding changes it')
    w = J.loads(J.dumps(v))
    cx.check(same(v, w), what + ': writing and reading JSON changes it')
    if msgpack:
        cx.check(same(v, M.loads(M.dumps(v))), what + ': writing and reading MessagePack changes it')
    return w


CONS = ['leaf', 'tuple', 'list', 'set', 'dict', 'odict', 'counter', 'slice', 'tuple2', 'dict2']


def build(cx, con, a, b, ha, hb, n):
    """a container of n elements; ha, hb hashable"""
    if con == 'leaf': return a
    if con == 'tuple': return (a, b)[:n]
    if con == 'list': return [a, b][:n]
    if con == 'set': return set([ha, hb][:n])
    if con == 'dict': return dict([(ha, a), (hb, b)][:n])
    if con == 'odict': return collections.OrderedDict([(hb, a), (ha, b)][:n])
    if con == 'counter': return collections.Counter(dict([(ha, 2), (hb, 1)][:n]))
    if con == 'slice': return slice(*[3, None, -1][:n + 1])
    if con == 'tuple2': return ((a,), b, ())[:n]
    return dict([((ha, hb), [a]), (('k',), (b,))][:n])


@harness(params=[dict(con=c, inner=i) for c in CONS for i in CONS if c != 'leaf' or i == 'leaf'], encodes=['encode_obj', 'encode_std_obj', 'decode_obj', 'decode_std_obj', 'io.json.dumps', 'io.json.loads', 'io.msgpack.dumps', 'io.msgpack.loads'],
         bounds='containers of up to two elements nested twice, every leaf and key among 22 kinds', **COMMON)
def nested(cx):
    """every nested value is read back as written"""
    con, inner = cx.p['con'], cx.p['inner']
    i = cx.choice('leaf', range(len(LEAVES)))
    h = cx.choice('key', [i, (i * 7 + 3) % len(HASHABLE), (i + 1) % len(HASHABLE)]) % len(HASHABLE)
    n = cx.choice('n', [0, 1, 2])
    ha, hb = HASHABLE[h], HASHABLE[(h + 5) % len(HASHABLE)]
    x = build(cx, inner, LEAVES[i], LEAVES[(i + 4) % len(LEAVES)], ha, hb, n)
    if con == 'leaf':
        v = x
    else:
        v = build(cx, con, x, LEAVES[(i + 9) % len(LEAVES)], hb, ha, 2 if n == 0 else n)
    keep = repr(v)
    trip(cx, v)
    cx.check(repr(v) == keep, 'encoding changed the value')


@harness(params=[dict(inside=c) for c in ('alone', 'tuple', 'value')], encodes=['encode_std_obj', 'decode_std_obj'],
         bounds='every slice with start, stop and step each absent or in [-9,9] (step not 0), alone and inside containers', **COMMON)
def slices(cx):
    """a slice keeps its start, stop and step, absent ones included"""
    part = []
    for k in ('start', 'stop', 'step'):
        if cx.choice('no_' + k, [True, False]):
            part.append(None)
        else:
            v = cx.bv(k, -9, 9)
            if k == 'step':
                cx.assume(v != 0)
            part.append(v)
    s = slice(*part)
    v = s if cx.p['inside'] == 'alone' else (1, s) if cx.p['inside'] == 'tuple' else {'k': s}
    w = JC.decode_obj(JC.encode_obj(v, False), False)
    t = w if cx.p['inside'] == 'alone' else w[1] if cx.p['inside'] == 'tuple' else w['k']
    cx.check(type(t) is slice, 'a slice is read back as something else')
    for name, x, y in zip(('start', 'stop', 'step'), part, (t.start, t.stop, t.step)):
        cx.check(y is None if x is None else land(y is not None, x == y if y is not None else False), 'slice: %s changes' % name)


@harness(params=[dict(con=c) for c in ('tuple', 'list', 'dict', 'odict', 'tuple2', 'dict2')], encodes=['encode_obj', 'encode_std_obj', 'decode_obj', 'decode_std_obj'],
         bounds='containers of up to two elements, every integer leaf in [-1000,1000], every Boolean', **COMMON)
def symbolic_leaves(cx):
    a, b = cx.bv('a', -1000, 1000), cx.bit('b')
    n = cx.choice('n', [1, 2])
    v = build(cx, cx.p['con'], a, b, 'x', ('y', 1), n)
    w = JC.decode_obj(JC.encode_obj(v, False), False)

    def eq(x, y):
        cx.check(type(x) is type(y) or not isinstance(x, (tuple, list, dict)), 'type of a container')
        if isinstance(x, (tuple, list)):
            cx.check(len(x) == len(y), 'number of elements')
            for p, q in zip(x, y):
                eq(p, q)
        elif isinstance(x, dict):
            eq(list(x.items()), list(y.items()))
        else:
            cx.check(x == y, 'a leaf changed')
    eq(v, w)


DTYPES = ['<f8', '>f8', '<c16', '<i8', '>i2', 'u1', '?', '<U3', 'S2', '<f4', [('a', '<i8'), ('b', '<f4')], [('x', '?'), ('y', '<U2'), ('z', '>i4')]]


@harness(params=[dict(shape=s) for s in ((), (0,), (1,), (4,), (2, 3), (0, 3), (2, 1, 2))], encodes=['encode_std_obj', 'decode_std_obj'],
         bounds='arrays of 7 shapes, 12 element types (including structured and big-endian), both memory orders, slices', **COMMON)
def arrays(cx):
    """arrays keep shape, element type and values, and can be written to"""
    dt = np.dtype(DTYPES[cx.choice('dt', range(len(DTYPES)))])
    shape = cx.p['shape']
    n = int(np.prod(shape))
    base = [i * 3 % 7 for i in range(n)]
    if dt.names:
        a = np.array([tuple(np.array(x).astype(dt[f]) for f in dt.names) for x in base], dt).reshape(shape)
    else:
        a = np.array(base).astype(dt).reshape(shape)
    lay = cx.choice('layout', ['C', 'F', 'reversed'])
    if lay == 'F':
        a = np.asfortranarray(a) if a.ndim else a
    elif lay == 'reversed' and a.ndim:
        a = a[::-1]
    trip(cx, a, 'array')
    trip(cx, {'k': [a, (a,)]}, 'nested array')
    cx.check_raises(lambda: JC.encode_obj(np.array([None, 1], dtype=object), False), 'an object array is accepted', TypeError)


LBL = [('Gx',), ('Gx', 0), ('Gcnot', 0, 1), ('Gx', 'Q1'), ('Gy', 2)]


def args(l):
    try: return l.args
    except NotImplementedError: return None


def label(cx, nm, simple=False):
    k = cx.choice(nm + 'kind', ['plain', 'time', 'args', 'par', 'circ'][:3 if simple else 5])
    l = LBL[cx.choice(nm, range(1 if simple else 0, len(LBL)))]
    if k == 'plain':
        return Label(*((l[0], l[1:]) if len(l) > 1 else l))
    if k == 'time':
        return Label(l[0], l[1:] or (0,), .5)
    if k == 'args':
        return Label(l[0], l[1:] or (0,), args=(1.5, 'b'))
    if k == 'par':
        return Label([('Gx', 0), ('Gy', 1)])
    return Circuit([('Gx', 0), ('Gy', 0)]).as_label(2)


@harness(params=[dict(what=w) for w in ('label', 'circuit', 'lines', 'keys')], encodes=['encode_obj', 'decode_obj', 'Label.__pygsti_reduce__', 'Circuit.__getstate__'],
         bounds='labels of 5 kinds, circuits of up to two layers', **COMMON)
def labels(cx):
    """labels and circuits are read back equal"""
    w = cx.p['what']
    a = label(cx, 'a')
    if w == 'label':
        trip(cx, a, 'label')
        trip(cx, [a, {a: (a,)}], 'nested labels')
        b = J.loads(J.dumps(a))
        cx.check(hash(a) == hash(b) and a.sslbls == b.sslbls and a.name == b.name and a.time == b.time and args(a) == args(b) and type(a) is type(b), 'parts of the label')
        return
    b = label(cx, 'b', True)
    ll = ('*',) if a.sslbls is None else tuple(dict.fromkeys((a.sslbls or ()) + (b.sslbls or ())))
    c = Circuit([a] if a.sslbls is None else [a, b], line_labels=ll)
    if w == 'lines':
        c = Circuit(c, line_labels=c.line_labels + ('extra',)) if c.line_labels != ('*',) else c
        if cx.choice('ed', [0, 1]):
            c = c.copy(editable=True)
    for K in (J, M):
        d = K.loads(K.dumps(c))
        cx.check(type(d) is Circuit and d == c and d.line_labels == c.line_labels and tuple(d) == tuple(c) and d.str == c.str, 'circuit')
        cx.check(d._static == c._static, 'kind of circuit')
        if w == 'keys' and c._static:
            v = K.loads(K.dumps({c: 1, (c, 'x'): [c]}))
            cx.check(v == {c: 1, (c, 'x'): [c]} and hash(list(v)[0]) == hash(c), 'circuits as keys')


@harness(params=[dict(what=w) for w in ('outcomes', 'spaces', 'qty', 'dataset', 'basis', 'plain')], encodes=['encode_obj', 'decode_obj', 'decode_std_base', 'DataSet.__getstate__', 'DataSet.__setstate__', 'OutcomeLabelDict.__pygsti_reduce__'],
         bounds='listed small objects', **COMMON)
def containers(cx):
    """pyGSTi containers are read back equal"""
    w = cx.p['what']
    K = (J, M)[cx.choice('fmt', [0, 1])]
    rt = lambda x: K.loads(K.dumps(x))
    if w == 'outcomes':
        d = LD.OutcomeLabelDict([(k, v) for k, v in zip(cx.choice('order', [('0', ('1', 'a')), (('1', 'a'), '0')]), (1, 2.5))])
        e = rt(d)
        cx.check(type(e) is LD.OutcomeLabelDict and list(e.items()) == list(d.items()), 'outcome dictionary')
    elif w == 'spaces':
        s = LD.StateSpaceLabels(*cx.choice('s', [('Q0',), ([('Q0', 1), ('L2',)],), ([('A', 'B')], [(3, 5)], [('Q', 'C')])]))
        e = rt(s)
        cx.check(type(e) is LD.StateSpaceLabels and e.__dict__ == s.__dict__, 'state-space labels')
    elif w == 'qty':
        q = RQ.ReportableQty(cx.choice('v', [1.5, 2j, 'text']), cx.choice('e', [None, .25, 0.0]), cx.choice('nm', [False, True]))
        e = rt(q)
        cx.check(type(e) is RQ.ReportableQty and same(e.__dict__, q.__dict__), 'reportable quantity')
    elif w == 'dataset':
        ds = O.DataSet(outcomeLabels=['0', '1'])
        ds.add_count_dict(('Gx', 'Gy'), {'0': 3, '1': cx.choice('n', [0, 5])}, aux={'k': (1, 2)})
        ds.add_raw_series_data((), ['0', '1', '1'], [0.0, .5, .5], [2, 1, 1])
        if cx.choice('static', [0, 1]):
            ds.done_adding_data()
        ds.comment = 'c'
        e = rt(ds)
        cx.check(type(e) is O.DataSet and list(e.keys()) == list(ds.keys()) and e.get_outcome_labels() == ds.get_outcome_labels(), 'circuits and outcomes')
        cx.check(all(e[c].counts == ds[c].counts and list(e[c].time) == list(ds[c].time) and list(e[c].reps) == list(ds[c].reps) and same(dict(e.auxInfo[c]), dict(ds.auxInfo[c])) for c in ds), 'rows')
        cx.check(e.bStatic == ds.bStatic and e.comment == 'c', 'kind of data set')
        if not e.bStatic:
            e.add_count_dict(('Gz',), {'0': 1})
            cx.check(e[('Gz',)].counts == {('0',): 1} and ('Gz',) not in ds, 'adding to the copy')
    elif w == 'basis':
        b = O.Basis.cast(*cx.choice('b', [('pp', 4), ('gm', 9), ('std', 16), ([('pp', 4), ('gm', 9)],), ([('pp', 4), ('pp', 4)],)]))
        e = rt(b)
        cx.check(type(e) is type(b) and e == b and list(e.labels) == list(b.labels) and all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(e.elements, b.elements)), 'basis')
    else:
        class Slotted(object):
            """state in slots, known only to __reduce__ (as the compiled representations)"""
            __slots__ = ('x',)

            def __init__(self, x): self.x = x
            def __reduce__(self): return Slotted, (self.x,)
        Slotted.__module__, Slotted.__name__ = JC.__name__, 'Slotted'
        JC.Slotted = Slotted
        try:
            x = cx.choice('x', [1, (2, 'a'), [None]])
            e = rt([Slotted(x)])[0]
            cx.check(type(e) is Slotted and same(e.x, x), 'object with slots')
        finally:
            del JC.Slotted
        cx.check(rt(Label) is Label and rt([O.Circuit])[0] is O.Circuit, 'classes')
        g = O.QubitGraph([0, 1, 'a'], initial_edges=[(0, 1), (1, 'a')])
        e = rt(g)
        cx.check(type(e) is O.QubitGraph and set(e.edges()) == set(g.edges()) and e.get_node_names() == g.get_node_names(), 'qubit graph')


def probs(m, cs):
    return np.array([v for c in cs for _, v in sorted(m.probs(c).items())])


@harness(params=[dict(par=p) for p in ('full', 'TP', 'CPTP', 'H+S', 'static', 'local')], encodes=['encode_obj', 'decode_obj', 'Model.__pygsti_getstate__', 'OrderedMemberDict.__pygsti_reduce__', 'ExplicitOpModel.__setstate__', 'ImplicitOpModel.__setstate__'],
         bounds='the one-qubit X-Y-idle model in 5 parameterisations, a two-qubit model with local noise; listed parameter vectors', **COMMON)
def models(cx):
    """models are read back with the same parameters, members and probabilities, and stay independent"""
    par = cx.p['par']
    fresh = cx.choice('fresh', [0, 1])
    K = (J, M)[cx.choice('fmt', [0, 1])]
    if par == 'local':
        m = PC.build_localnoise_model(2, ['Gx', 'Gcnot'], parameterization='H+S')
        cs = [Circuit([('Gx', 0), ('Gcnot', 0, 1)]), Circuit([('Gx', 1)], line_labels=(0, 1))]
    else:
        m = std1Q_XYI.target_model()
        m.set_all_parameterizations(par)
        cs = [Circuit(('Gx', 'Gy')), Circuit(('Gi', 'Gx', 'Gx'))]
    v = None
    if not fresh:
        v = m.to_vector()
        v = v + .01 * np.arange(len(v)) / max(1, len(v))
        m.from_vector(v)
    e = K.loads(K.dumps(m))
    cx.check(type(e) is type(m) and e.num_params() == m.num_params(), 'number of parameters')
    cx.check(np.array_equal(e.to_vector(), m.to_vector()), 'parameters')
    cx.check(np.allclose(probs(e, cs), probs(m, cs), atol=1e-12), 'probabilities')
    if par != 'local':
        cx.check(list(e.operations) == list(m.operations) and all(type(e.operations[l]) is type(m.operations[l]) and e.operations[l].gpindices == m.operations[l].gpindices for l in m.operations), 'operations')
    if e.num_params():
        before = probs(m, cs)
        x = e.to_vector()
        e.from_vector(x * .5 + .03)
        cx.check(np.array_equal(probs(m, cs), before), 'the copy is tied to the original')
        m2 = m.copy()
        m2.from_vector(x * .5 + .03)
        cx.check(np.allclose(probs(m2, cs), probs(e, cs), atol=1e-10), 'the copy does not respond to its parameters as the original')
