"""Shared circuit content model for P01/P02/P05: a circuit is a list of layers,
a layer a list of gates (name, lines or None, args, time)."""
from symex.harness import land, lor, ite
from pygsti.objects.label import Label, CircuitLabel
from pygsti.objects.circuit import Circuit

NAMES = ['Gx', 'Gy', 'Gz']
TIMES = [0.0, 0.5, 1.25]
ARGS = ['1.5', 'a', '0']
LINES = (0, 1, 2)
PATS = [(), ((0,),), ((0, 1),), ((1,), (2,)), ((0,), (1,), (2,)), ((0, 2), (1,)), (None,)]
PATS2 = [(), ((0,),), ((1,), (2,)), ((0, 1),), ((0,), (1, 2)), (None,)]


def same(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        r = [same(x, y) for x, y in zip(a, b)]
        if any(x is False for x in r):
            return False
        r = [x for x in r if x is not True]
        return land(*r) if r else True
    if a is None or b is None:
        return a is b
    return a == b


def gate(cx, nm, lines, rich=True):
    """a gate with symbolic name, and (rich) symbolic time / argument"""
    return (cx.fd(nm + 'n', NAMES), lines, (cx.fd(nm + 'a', ARGS),) if rich and lines is not None and len(lines) == 1 else (),
            cx.fd(nm + 't', TIMES) if rich else 0.0)


def content(cx, nm, nlayers, pats=PATS, rich=True):
    return [[gate(cx, '%s%d%d' % (nm, i, k), ls, rich) for k, ls in enumerate(cx.choice('%sp%d' % (nm, i), pats))] for i in range(nlayers)]


def fixed(cx, nm, nlayers, pats, off=0):
    """content with concrete, pairwise different gates (for operations that build text)"""
    return [[('G%s%d%d' % ('xyz'[(i + k + off) % 3], i, k), ls, (ARGS[(i + k) % 3],) if ls is not None and len(ls) == 1 and k == 0 else (), TIMES[(i + off) % 3])
             for k, ls in enumerate(cx.choice('%sp%d' % (nm, i), pats))] for i in range(nlayers)]


def lab(g):
    return Label(g[0], g[1], g[3], g[2] if g[2] else None)


def layer_label(layer):
    ls = [lab(g) for g in layer]
    return ls[0] if len(ls) == 1 else Label(tuple(ls))


def circuit(layers, lines=LINES, editable=False):
    return Circuit([layer_label(l) for l in layers], lines, editable=editable)


def key(g):
    return (-1, ()) if g[1] is None else (min(str(x) for x in g[1]), tuple(str(x) for x in g[1]))


def canon(layer):
    return sorted(layer, key=lambda g: str(key(g)))


def gates_of(l):
    """flatten a layer label into gate tuples (sub-circuits stay one 'gate')"""
    if isinstance(l, (list, tuple)) and not isinstance(l, Label):
        out = []
        for x in l:
            out.extend(gates_of(x))
        return out
    if isinstance(l, CircuitLabel):
        return [(('circ', l.name, l.reps, tuple(tuple(canon(gates_of(c))) for c in l.components)), l.sslbls, (), l.time)]
    if l.issimple():
        return [(l.name, l.sslbls, tuple(l.args), l.time)]
    out = []
    for c in l.components:
        out.extend(gates_of(c))
    return out


def read(c):
    """content of a circuit through its public layer tuple"""
    return [gates_of(l) for l in c.layertup]


def same_layers(got, want):
    if len(got) != len(want):
        return False
    return same([canon(l) for l in got], [canon(l) for l in want])


def check_content(cx, c, want, msg, lines=None):
    got = read(c)
    cx.check(len(got) == len(want), msg + ": number of layers (%d, expected %d)" % (len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        cx.check(same([canon(a)], [canon(b)]), msg + ": gates of layer %d" % i)
    if lines is not None:
        cx.check(tuple(c.line_labels) == tuple(lines), msg + ": line labels %s" % (c.line_labels,))


def glines(g, lines):
    return set(lines) if g[1] is None else set(g[1])
