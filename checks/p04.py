"""P04: labels compare, hash, rename, re-map, pickle and construct consistently (objects/label)."""
import copy
import pickle
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects import label as L
from pygsti.objects.label import Label, CircuitLabel

LOGIC = 'QF_FD'
MODS = ['pygsti.objects.label']
META = {'assumptions': ['names from a 3-letter alphabet, lines from {0,1,2,"Q0"}, times from {0, 0.5, 1.25}, arguments from 3 values; nesting depth 2']}
NAMES = ['Gx', 'Gy', 'Gcnot']
LINES = [0, 1, 2]
TIMES = [0.0, 0.5, 1.25]
ARGS = ['1.5', 'a', '0']


def content(l, drop_time=False):
    """structure of a label through its public attributes"""
    t = 0 if drop_time else l.time
    if isinstance(l, CircuitLabel):
        return ('circ', l.name, l.sslbls, l.reps, t, tuple(content(c, drop_time) for c in l.components))
    if not l.issimple():
        return ('par', tuple(l.args), t, tuple(content(c, drop_time) for c in l.components))
    return ('simple', l.name, l.sslbls, tuple(l.args), t)


def build(c):
    k = c[0]
    if k == 'simple':
        return Label(c[1], c[2], c[4], c[3] if c[3] else None)
    if k == 'par':
        return Label(tuple(build(x) for x in c[3]), time=c[2], args=c[1] if c[1] else None)
    return CircuitLabel(c[1], tuple(build(x) for x in c[5]), c[2], c[3], c[4])


def mapc(c, f=None, old=None, new=None):
    k = c[0]
    m = (lambda s: None if s is None else tuple(f(x) for x in s)) if f else (lambda s: s)
    n = (lambda s: ite_name(s, old, new)) if old is not None else (lambda s: s)
    if k == 'simple':
        return ('simple', n(c[1]), m(c[2]), c[3], c[4])
    if k == 'par':
        return ('par', c[1], c[2], tuple(mapc(x, f, old, new) for x in c[3]))
    return ('circ', c[1], m(c[2]), c[3], c[4], tuple(mapc(x, f, old, new) for x in c[5]))


def ite_name(s, old, new):
    return new if s == old else s


def same(a, b):
    """symbolic structural equality"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = [same(x, y) for x, y in zip(a, b)]
        return False if any(x is False for x in r) else land(*[x for x in r if x is not True]) if any(x is not True for x in r) else True
    if a is None or b is None:
        return a is b
    return a == b


KINDS = ['str', 'tup1', 'tup2', 'args', 'args0', 'par', 'parargs', 'circ', 'circname', 'parcirc']


def simple(cx, nm, nl, args=False):
    return ('simple', cx.fd(nm + 'n', NAMES), tuple(cx.fd(nm + 'l%d' % i, LINES) for i in range(nl)) or None,
            (cx.fd(nm + 'a', ARGS),) if args else (), cx.fd(nm + 't', TIMES))


def mk(cx, kind, nm='', lines_only=False):
    if kind == 'str':
        return ('simple', cx.choice(nm + 'n', NAMES), None, (), cx.fd(nm + 't', TIMES))
    if kind == 'tup1':
        return simple(cx, nm, 1)
    if kind == 'tup2':
        return simple(cx, nm, 2)
    if kind == 'args':
        return simple(cx, nm, 1, True)
    if kind == 'args0':
        return simple(cx, nm, 0, True)
    if kind in ('par', 'parargs'):
        return ('par', (cx.fd(nm + 'pa', ARGS), 'z') if kind == 'parargs' else (), cx.fd(nm + 'pt', TIMES),
                (simple(cx, nm + 'x', 1), simple(cx, nm + 'y', 2, True)))
    if kind in ('circ', 'circname'):
        return ('circ', '' if kind == 'circ' else 'Sub', (cx.one(0), cx.one(1)), 2, cx.fd(nm + 'ct', TIMES), (simple(cx, nm + 'x', 1), ('par', (), cx.fd(nm + 'pt', TIMES), (simple(cx, nm + 'u', 1), simple(cx, nm + 'v', 1)))))
    if kind == 'parcirc':
        return ('par', (), cx.fd(nm + 'pt', TIMES), (('circ', '', (cx.one(0),), 3, 0.0, (simple(cx, nm + 'x', 1), simple(cx, nm + 'y', 1))), simple(cx, nm + 'z', 1)))
    raise ValueError(kind)


@harness(params=[{'k': k} for k in KINDS], modules=MODS, logic=LOGIC, encodes=['Label.__new__', 'Label*.init', 'Label*.__reduce__', 'Label*.__eq__', 'Label*.__hash__'],
         bounds='every label of each shape with arbitrary names/lines/args/times from the alphabets')
def construct(cx):
    c = mk(cx, cx.p['k'])
    l = build(c)
    cx.check(same(content(l), c), "label does not hold what it was built from")
    l2 = build(c)
    cx.check(l == l2, "equal components must give equal labels")
    cx.check(hash(l) == hash(l2), "equal labels must hash equally")
    cx.check(Label(l) is l or bool(Label(l) == l), "Label(label) must be the label")
    cx.check(lnot(l != l2) if not isinstance(l != l2, bool) else not (l != l2), "!= is not the negation of ==")
    f, a = l.__reduce__()[:2]
    r = f(*a)
    cx.check(type(r) is type(l) and same(content(r), content(l)), "reducing and rebuilding a label changes it")


@harness(params=[{'k': k} for k in KINDS], modules=[], logic=LOGIC, encodes=['Label*.__reduce__', 'Label*.__str__'], bounds='fixed alphabets, solver-chosen members')
def pickling(cx):
    c = mk(cx, cx.p['k'])

    def conc(x):
        if isinstance(x, tuple):
            return tuple(conc(y) for y in x)
        return x.conc() if hasattr(type(x), 'conc') else x
    if cx.p['k'] in ('par', 'parargs', 'circ', 'circname', 'parcirc'):
        # fix the leaves, keep the container symbolic
        c = conc_leaves(c)
    l = build(conc(c))
    for nm, r in (('pickle', pickle.loads(pickle.dumps(l))), ('deepcopy', copy.deepcopy(l)), ('copy', copy.copy(l))):
        cx.check(type(r) is type(l) and content(r) == content(l) and r == l, nm + " changes the label")
    cx.check(isinstance(str(l), str) and isinstance(repr(l), str), "printable")


def conc_leaves(c):
    if c[0] == 'simple':
        return ('simple', 'Gx', tuple(range(len(c[2]))) if c[2] else None, ('a',) if c[3] else (), c[4])
    if c[0] == 'par':
        return ('par', c[1], c[2], tuple(conc_leaves(x) for x in c[3]))
    return c[:5] + (tuple(conc_leaves(x) for x in c[5]),)


@harness(params=[{'k': a, 'j': a} for a in KINDS] + [{'k': 'tup1', 'j': 'args'}, {'k': 'tup2', 'j': 'args'}, {'k': 'par', 'j': 'parcirc'}, {'k': 'tup1', 'j': 'str'}],
         modules=MODS, logic=LOGIC, encodes=['Label*.__eq__', 'Label*.__hash__', 'Label*.__lt__', 'Label*.__gt__'], bounds='all pairs of labels of the listed shapes')
def equality(cx):
    a, b = mk(cx, cx.p['k'], 'a'), mk(cx, cx.p['j'], 'b')
    la, lb = build(a), build(b)
    want = same(content(la, True), content(lb, True))
    got = (la == lb)
    cx.check(bool(got) == bool(want), "labels are equal iff they have the same content (times aside)")
    cx.check(bool(lb == la) == bool(got), "equality is symmetric")
    cx.check(bool(la != lb) == (not got), "!= is not the negation of ==")
    if got:
        cx.check(hash(la) == hash(lb), "equal labels must hash equally")
    if cx.p['k'] == cx.p['j'] and (cx.p['k'] in ('tup1', 'tup2') or cx.p['k'] == 'str' and bool(a[4] == 0) and bool(b[4] == 0)):
        cx.check(bool(la < lb) + bool(la > lb) + bool(got) == 1, "ordering must be total")


@harness(params=[{'k': k} for k in KINDS if k not in ('str', 'args0')], modules=MODS, logic=LOGIC, encodes=['Label*.map_state_space_labels', 'Label*.sslbls', 'Label*.number_of_qubits'],
         bounds='every label of each shape; arbitrary injective map of the lines')
def remap(cx):
    c = mk(cx, cx.p['k'])
    l = build(c)
    perm = cx.choice('perm', [(0, 1, 2), (1, 2, 0), (2, 1, 0), (5, 6, 7), ('A', 'B', 'C')])
    for as_dict in (True, False):
        m = dict(zip(LINES, perm))
        fd = cx.dict(m)
        r = l.map_state_space_labels(fd if as_dict else (lambda x: fd[x]))
        cx.check(same(content(r), mapc(content(l), lambda x: fd[x])), "re-mapping lines changes something else (or not the lines)")
        cx.check(type(r) is type(l), "re-mapping changes the kind of label")
        hash(r)
    inv = cx.dict(dict(zip(perm, LINES)))
    back = r.map_state_space_labels(inv)
    cx.check(back == l, "mapping there and back")


@harness(params=[{'k': k} for k in KINDS], modules=MODS, logic=LOGIC, encodes=['Label*.replacename', 'Label*.has_prefix', 'Label*.__add__'], bounds='every label of each shape; arbitrary old and new name')
def rename(cx):
    c = mk(cx, cx.p['k'])
    l = build(c)
    old, new = cx.fd('old', NAMES), cx.choice('new', ['Gi', 'Gx'])
    r = l.replacename(old, new)
    cx.check(same(content(r), mapc(content(l), None, old, new)), "renaming changes something else (or not the name)")
    cx.check(type(r) is type(l), "renaming changes the kind of label")
    if cx.p['k'] in ('str', 'tup1', 'tup2', 'args', 'args0'):
        s = l + '_x'
        cx.check(type(s) is type(l), "appending to the name changes the kind of label")
        cx.check(same(content(s), ('simple', c[1] + '_x') + content(l)[2:]), "appending to the name changes something else")
        cx.check(bool(l.has_prefix('Gc')) == (c[1] == 'Gcnot'), "has_prefix")
    elif cx.p['k'] in ('par', 'parargs'):
        ns = [x[1] for x in c[3]]
        cx.check(bool(l.has_prefix('Gc')) == all([bool(n == 'Gcnot') for n in ns]), "has_prefix(all)")
        cx.check(bool(l.has_prefix('Gc', 'any')) == any([bool(n == 'Gcnot') for n in ns]), "has_prefix(any)")


@harness(params=[{'k': k} for k in KINDS], modules=MODS, logic=LOGIC, encodes=['Label*.depth', 'Label*.expand_subcircuits', 'Label*.sslbls', 'Label*.components', 'Label*.reps'],
         bounds='every label of each shape')
def structure(cx):
    c = mk(cx, cx.p['k'])
    l = build(c)

    def depth(c):
        if c[0] == 'simple':
            return 1
        if c[0] == 'par':
            return max(depth(x) for x in c[3])
        return c[3] * sum(depth(x) for x in c[5])

    def layers(c):
        """list of lists of simple contents"""
        if c[0] == 'simple':
            return [[c]]
        if c[0] == 'par':
            subs = [layers(x) for x in c[3]]
            return [[y for s in subs if i < len(s) for y in s[i]] for i in range(max(len(s) for s in subs))]
        return [y for x in c[5] for y in layers(x)] * c[3]

    def lines(c):
        if c[0] == 'simple':
            return list(c[2] or [])
        if c[0] == 'circ':
            return list(c[2])
        return [y for x in c[3] for y in lines(x)]
    cx.check(l.depth() == depth(c), "depth")
    if cx.p['k'] != 'parargs':
        ex = l.expand_subcircuits()
        want = layers(c)
        cx.check(len(ex) == len(want), "expanded depth")
        for e, w in zip(ex, want):
            got = [content(x, True) for x in e.components]
            cx.check(same(tuple(got), tuple(x[:4] + (0,) for x in w)), "expanded layer")
    ss = l.sslbls
    ls = lines(c)
    if not ls:
        cx.check(ss is None and l.number_of_qubits is None, "no lines")
    else:
        for x in ls:
            cx.check(lor(*[x == y for y in ss]), "lines of the label miss a component's line")
        for y in ss:
            cx.check(lor(*[x == y for x in ls]), "label reports a line none of its components has")
        if c[0] == 'par':
            for p, q in zip(ss, ss[1:]):
                cx.check(p < q, "sorted distinct lines")
        cx.check(l.number_of_qubits == len(ss), "number_of_qubits")


@harness(params=[{'n': n, 'a': a, 't': t} for n in (0, 1, 2) for a in (0, 1, 2) for t in (0, 1, 2)], modules=MODS, logic=LOGIC, encodes=['Label.__new__ (tuple form)'],
         bounds='(name, lines..., ";arg"/";",arg, "!time"/"!",time) in every arrangement of <=2 lines, <=2 args')
def from_tuple(cx):
    n, a, t = cx.p['n'], cx.p['a'], cx.p['t']
    nm = cx.choice('nm', NAMES)
    ls = [cx.fd('l%d' % i, LINES) for i in range(n)]
    args = [cx.choice('a%d' % i, ARGS) for i in range(a)]
    tm = cx.choice('tm', TIMES)
    parts = [[x] for x in ls]
    ap = [[';' + x] if cx.choice('s%d' % i, [0, 1]) else [';', x] for i, x in enumerate(args)]
    parts = (ap + parts) if cx.choice('o', [0, 1]) else (parts + ap)
    tp = [] if t == 0 else (['!', tm] if t == 1 else ['!%f' % tm])
    tup = (nm,) + tuple(y for p in parts for y in p) + tuple(tp)
    if cx.choice('lst', [0, 1]):
        tup = list(tup)
    l = Label(tup)
    want = ('simple', nm, tuple(ls) or None, tuple(args), tm if t else 0.0)
    cx.check(same(content(l), want), "label built from a tuple")
    cx.check(l == build(want), "equals the label built from its components")
    if n and not a and not t:
        s = Label(nm, [str(x) for x in ls]) if not cx.symbolic else Label(nm, ls)
        cx.check(s == l, "digit strings denote integer lines")
        if n == 1:
            cx.check(Label(nm, ls[0]) == l, "single line without tuple")
