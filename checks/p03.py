"""P03: circuit text (io/circuitparser/slowcircuitparser.py, fastcircuitparser.pyx, Circuit/Label printing)."""
import os
import re
import sys
import types
from symex import env, convert
from symex.harness import harness, land, lor, lnot
from symex.sstr import SStr, Dec, text
from pygsti.objects.label import Label, CircuitLabel
from pygsti.objects.circuit import Circuit
import pygsti.io.circuitparser as CP
import pygsti.io.circuitparser.slowcircuitparser as slow
from checks.circ import PATS, same, layer_label, fixed

META = {'assumptions': ['texts of the grammar templates below with every name/argument/line/digit character symbolic within its class; free texts of up to 7 characters after a fixed prefix',
                        'the Cython parser is decided from fastcircuitparser.pyx with its C type declarations removed (INT as unbounded integer, no out-of-bounds reads)']}


# ------------------------------------------------------------------ recorded labels

class R(object):
    def __init__(self, kind, name, comp, lines, args, time, reps=1):
        self.kind, self.name, self.comp, self.lines, self.args, self.time, self.reps = kind, name, tuple(comp), tuple(lines or ()), tuple(args or ()), time, reps

    @property
    def sslbls(self):
        return self.lines

    @property
    def components(self):
        return self.comp

    def same(self, o):
        if not isinstance(o, R) or self.kind != o.kind or len(self.comp) != len(o.comp) or len(self.lines) != len(o.lines) or len(self.args) != len(o.args):
            return False
        rs = [eq(self.name, o.name), eq(self.reps, o.reps)] + [eq(a, b) for a, b in zip(self.lines, o.lines)] + [eq(a, b) for a, b in zip(self.args, o.args)] \
            + [a.same(b) for a, b in zip(self.comp, o.comp)]
        if self.kind != 'C':
            rs.append(eq(self.time, o.time))
        return land(*rs)


def eq(a, b):
    if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
        return False
    return a == b


def rec(x):
    """record of a real label (concrete runs)"""
    if isinstance(x, R):
        return x
    if isinstance(x, CircuitLabel):
        return R('C', x.name, [rec(l) for l in x.components], (), (), 0.0, x.reps)
    if x.issimple():
        return R('L', x.name, (), x.sslbls, x.args, x.time)
    return R('P', '', [rec(l) for l in x.components], (), (), x.time)


def agree(xs, ys):
    xs, ys = [rec(x) for x in xs], [rec(y) for y in ys]
    return len(xs) == len(ys) and land(*([x.same(y) for x, y in zip(xs, ys)] or [True]))


def maxtime(ls):
    t = 0.0
    for l in ls:
        if l.time > t:
            t = l.time
    return t


def LabelStr(name, time=0.0):
    return R('L', name, (), (), (), time)


def LabelTup(tup, time=0.0):
    return R('L', tup[0], (), tup[1:], (), time)


def LabelTupWithArgs(tup, time=0.0):
    n = tup[1]
    return R('L', tup[0], (), tup[n:], tup[2:n], time)


def LabelTupTup(tup, time=None):
    return R('P', '', tup, (), (), maxtime(tup) if time is None else time)


def StubLabel(name, state_space_labels=None, time=None, args=None):
    if isinstance(name, R):
        return name
    if isinstance(name, (str, SStr)):
        return R('L', name, (), state_space_labels, args, 0.0 if time is None else time)
    if len(name) == 1 and isinstance(name[0], R):
        return name[0]
    return R('P', '', name, [x for l in name for x in l.sslbls], (), 0.0)


def StubCircuitLabel(name, layers, sslbls=None, reps=1, time=None):
    return R('C', name, layers, (), (), 0.0, reps)


for _c in (LabelTup, LabelTupWithArgs):
    pass
LabelStr.init = lambda name, time=0.0: LabelStr(name, time)
LabelTup.init = lambda name, lines, time=0.0: R('L', name, (), lines, (), time)
LabelTupWithArgs.init = lambda name, lines, time=0.0, args=(): R('L', name, (), lines, args, time)
LabelTupTup.init = lambda tup, time=None: LabelTupTup(tup, time)

STUB = types.SimpleNamespace(LabelStr=LabelStr, LabelTup=LabelTup, LabelTupWithArgs=LabelTupWithArgs, LabelTupTup=LabelTupTup, Label=StubLabel, CircuitLabel=StubCircuitLabel)


# ------------------------------------------------------------------ the Cython parser as Python

def strip_types(src):
    out = []
    for ln in src.split('\n'):
        s = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if re.match(r'(from\s+\S+\s+)?cimport\b', s) or s.startswith('ctypedef') or s.startswith('@cython'):
            continue
        m = re.match(r'(?:cdef|cpdef|def)\s+(?:inline\s+)?(?:[A-Za-z_]\w*\s+)?(\w+)\s*\((.*)\)\s*(?:except\s*[^:]*)?:\s*(#.*)?$', s)
        if m:
            args = [a.strip() for a in m.group(2).split(',')] if m.group(2).strip() else []
            clean = []
            for a in args:
                nm, dflt = (a.split('=', 1) + [None])[:2]
                clean.append(nm.split()[-1].lstrip('*&') + ('' if dflt is None else '=' + dflt))
            out.append('%sdef %s(%s):' % (ind, m.group(1), ', '.join(clean)))
            continue
        m = re.match(r'cdef\s+(?:unsigned\s+)?(?:long\s+long|[A-Za-z_]\w*)\s*\**\s*(.*)$', s)
        if m:
            decls = [d.strip() for d in m.group(1).split('#')[0].split(',') if '=' in d]
            out.append(ind + ('; '.join(d.lstrip('*') for d in decls) if decls else 'pass'))
            continue
        out.append(re.sub(r'<\s*(?:INT|UINT|int|long|double|bool|unicode|str)\s*>', '', ln))
    return '\n'.join(out)


def load(rel, name, strip, conv):
    path = os.path.join(env.REPO, 'pygsti/io/circuitparser', rel)
    with open(path) as f:
        src = f.read()
    mod = convert.load(strip_types(src) if strip else src, path, 'pygsti.io.circuitparser.' + name, 'pygsti.io.circuitparser', conv)
    sys.modules[mod.__name__] = mod
    return mod


IMPL = {'slow': load('slowcircuitparser.py', 'verif_slow', False, True), 'fast': load('fastcircuitparser.pyx', 'verif_fast', True, True)}
REAL = {'slow': slow, 'fast': load('fastcircuitparser.pyx', 'verif_fast_plain', True, False)}


def parser(cx, which):
    return (IMPL if cx.symbolic else REAL)[which]


MODS = [('pygsti.io.circuitparser.verif_slow', {'_lbl': STUB}), ('pygsti.io.circuitparser.verif_fast', {'_lbl': STUB})]
CLS = {'n': 'az09__', 'a': 'az09__QQ..//', 's': 'az__QQ', 'S': 'az09__QQ', 'd': '09', 'z': '19', 'o': '01'}


class Gen(object):
    def __init__(self, cx):
        self.cx, self.k = cx, 0

    def ch(self, cls):
        self.k += 1
        r = CLS[cls]
        v = self.cx.bv('c%d' % self.k, min(ord(x) for x in r), max(ord(x) for x in r))
        self.cx.assume(lor(*[land(v >= ord(r[i]), v <= ord(r[i + 1])) for i in range(0, len(r), 2)]))
        return v if self.cx.symbolic and not type(v) is int else chr(v)

    def s(self, pattern):
        """pattern characters that name a class become symbolic characters, others (prefixed by ') stay"""
        out, lit = [], False
        for p in pattern:
            if p == "'":
                lit = True
            elif lit:
                out.append(p)
                lit = False
            else:
                out.append(self.ch(p))
        return text(out)


def num(s):
    return int(s) if isinstance(s, str) else s.__symint__()


def dec(s):
    return float(s) if isinstance(s, str) else s.__symfloat__()


def join(*xs):
    out = ()
    for x in xs:
        out = out + tuple(x.ch if isinstance(x, SStr) else x)
    return text(out)


def simple(g, spec):
    """spec = (prefix+name pattern, args patterns, line patterns, time pattern or None)"""
    nm, args, lines, time = spec
    n = g.s(nm)
    A = [g.s(a) for a in args]
    L = [g.s(l) for l in lines]
    t = None if time is None else g.s(time)
    txt = join(n, *([join(';', a) for a in A] + [join(':', l) for l in L] + ([join('!', t)] if t is not None else [])))
    return txt, R('L', n, (), [num(x) if set(p) <= set('dzo') else x for x, p in zip(L, lines)], A, 0.0 if t is None else dec(t))


def build(g, node, subc):
    """-> text, list of expected labels"""
    kind = node[0]
    if kind == 'seq':
        ts, ls = [], []
        for i, x in enumerate(node[1:]):
            t, l = build(g, x, subc)
            ts.append(join('*', t) if i % 2 and node[0] == 'seq' and len(node) > 2 else t)
            ls += l
        return join(*ts), ls
    if kind == 'nop':
        return '{}', []
    if kind == 'pow':
        t, l = build(g, node[1], subc)
        e = g.s(node[2])
        if node[1][0] == 'par' and subc:
            if l:
                l = [R('C', '', l[0].comp, (), (), 0.0, num(e))]
            return join(t, '^', e), l
        return join(t, '^', e), l * int(num(e))
    if kind == 'par':
        t, l = build(g, node[1], subc)
        return join('(', t, ')'), ([R('C', '', l, (), (), 0.0, 1)] if l else []) if subc else l
    if kind == 'lay':
        t, l = build(g, node[1], subc)
        return join('[', t, ']'), l if len(l) == 1 else [R('P', '', l, (), (), maxtime(l))]
    t, l = simple(g, node)
    return t, [l]


A1 = ("'Gnn", (), (), None)
A2 = ("'Gn", (), ('d', 'sS'), "d'.d")
A3 = ("'In", ('aa', 'a'), ('zd',), 'd')
A4 = ("'Gn", (), ('s', 'z'), None)
A5 = ("'Gn", ('a',), (), None)
RHO = ("'r'h'on", (), (), None)
POVM = ("'Mn", (), (), None)
NOP = ('nop',)
TEMPLATES = {
    'one': ('seq', A1), 'two': ('seq', A2, A3), 'arg': ('seq', A5, A4), 'pow': ('seq', ('pow', A4, 'z')), 'pow2': ('seq', A5, ('pow', A1, 'oz'), A4), 'nop': ('seq', NOP, ('pow', NOP, 'z'), A5),
    'layer': ('seq', ('lay', ('seq', A4, A2)), A1), 'layer0': ('seq', ('lay', ('seq', NOP)), A5, ('pow', ('lay', NOP), 'z')), 'layer1': ('seq', ('pow', ('lay', A3), 'o'), A5),
    'layerpow': ('seq', A5, ('pow', ('lay', ('seq', A5, A4)), 'z')), 'group': ('seq', ('par', ('seq', A4, A5)), A1), 'grouppow': ('seq', ('pow', ('par', ('seq', A5, ('lay', ('seq', A4, A5)))), 'z'), A5),
    'nested': ('seq', ('pow', ('par', ('seq', ('pow', ('par', ('seq', A5, A4)), 'o'), A5)), 'z')), 'layergroup': ('seq', ('lay', ('seq', ('pow', ('par', ('seq', A5, A5)), 'z'), A4))),
    'prep': ('seq', RHO, A5, POVM), 'prep0': ('seq', RHO, NOP, ('par', ('seq', A5, A5))), 'empty': ('seq', ('par', NOP), ('lay', ('seq', A5)), ('pow', ('par', ('seq', NOP)), 'z')),
    'groupsingle': ('seq', ('par', A4), ('pow', ('par', A5), 'o')),
}
LINES = {'none': None, 'ints': (('d', 'zd'), ','), 'mixed': (('s', 'd', 'sS'), ', '), 'empty': ((), ','), 'blank': (('sS', 's'), ' ,')}


@harness(params=[{'impl': i, 't': t} for i in ('slow', 'fast') for t in TEMPLATES], modules=MODS, encodes=['slowcircuitparser.parse_circuit', 'slowcircuitparser._get_next_lbls', 'slowcircuitparser._get_next_simple_lbl',
                                                                                                    'slowcircuitparser._parse_exponent', 'fastcircuitparser.pyx parse_circuit/get_next_lbls/get_next_simple_lbl/parse_exponent'],
         bounds='18 grammar templates (powers up to 2 digits, nested groups/layers, preparations, POVMs, arguments, line labels, times) with symbolic characters')
def grammar(cx):
    mod = parser(cx, cx.p['impl'])
    subc = cx.choice('subc', [True, False])
    g = Gen(cx)
    txt, want = build(g, TEMPLATES[cx.p['t']], subc)
    got, lines = mod.parse_circuit(txt, subc, True)
    cx.check(lines is None, "no line labels")
    cx.check(agree(list(got), want), "labels of the text %s" % cx.p['t'])


@harness(params=[{'impl': i, 'l': t} for i in ('slow', 'fast') for t in LINES], modules=MODS, encodes=['slowcircuitparser.parse_circuit', 'fastcircuitparser.pyx parse_circuit'],
         bounds='line-label lists of up to 3 labels with symbolic characters, integer line labels on request')
def linelabels(cx):
    mod = parser(cx, cx.p['impl'])
    g = Gen(cx)
    integerize = cx.choice('int', [True, False])
    nm, dl, sl = g.s("'Gn"), g.s('dd'), g.s('sS')
    txt = join(nm, ':', dl, ':', sl)
    pat = LINES[cx.p['l']]
    want = None
    if pat is not None:
        xs = [g.s(p) for p in pat[0]]
        txt = join(txt, '@(', *[join(pat[1] if i else '', x) for i, x in enumerate(xs)], ')')
        want = tuple(num(x) if set(p) <= set('dz') else x for x, p in zip(xs, pat[0]))
    got, lines = mod.parse_circuit(txt, True, integerize)
    cx.check(agree(got, [R('L', nm, (), (num(dl) if integerize else dl, sl), (), 0.0)]), "labels")
    if want is None:
        cx.check(lines is None, "no line labels")
    else:
        cx.check(isinstance(lines, tuple) and len(lines) == len(want) and land(*([eq(a, b) for a, b in zip(lines, want)] or [True])), "line labels")


ALPHA = ['Gx', '0_', ':;', '!.', '^(', ')[', ']{', '}*', 'IM', 'Qr']


@harness(params=[{'pre': p, 'n': 3, 'post': q} for p in ('', 'G', 'Gx:', 'Gx;1', 'Gx!', '[Gx', '(Gx') for q in ('', ']', ')') if (p[:1], q) in (('', ''), ('G', ''), ('[', ']'), ('(', ')'), ('(', ''))],
         thorough_params=[{'pre': p, 'n': 5, 'post': q} for p in ('', 'G', 'Gx:', 'Gx;1', 'Gx!', '[Gx', '(Gx', 'rho') for q in ('', ']', ')')],
         modules=MODS, encodes=['slowcircuitparser.parse_circuit', 'fastcircuitparser.pyx parse_circuit'], bounds='all texts prefix + 3 characters over a 20-letter alphabet + suffix (5 thorough)')
def agreement(cx):
    cs = []
    for i in range(cx.p['n']):
        v = cx.bv('c%d' % i, 33, 125)
        cx.assume(lor(*[v == ord(x) for p in ALPHA for x in p]))
        cs.append(v if cx.symbolic and not type(v) is int else chr(v))
    txt = join(cx.p['pre'], text(cs), cx.p['post'])
    res = []
    for mod in (parser(cx, 'slow'), parser(cx, 'fast')):
        try:
            res.append(mod.parse_circuit(txt, True, True)[0])
        except (ValueError, IndexError):
            res.append(None)
    if res[0] is None or res[1] is None:
        cx.cover('rejected')
        return
    cx.cover('accepted')
    cx.check(agree(list(res[0]), list(res[1])), "the two parsers accept the same text with different meanings")


# ------------------------------------------------------------------ printing and parsing again

def circuits(cx, nlay, pats, sub):
    lines = cx.choice('lines', [(0, 1, 2), ('Q0', 'Q1', 'a_1')])
    C = fixed(cx, 'c', nlay, pats, 1)
    m = dict(zip((0, 1, 2), lines))
    L = [layer_label([(g[0].lower().replace('g', 'G'), None if g[1] is None else tuple(m[x] for x in g[1]), g[2], g[3]) for g in l]) for l in C]
    if sub:
        k = cx.choice('at', list(range(nlay)))
        reps = cx.choice('reps', [1, 2, 3])
        inner = L[k:k + 2] if len(L[k:k + 2]) == 2 else [L[k], L[0]]
        ss = tuple(sorted(set(x for l in inner for x in (l.sslbls or ())))) or None
        L = L[:k] + [CircuitLabel('', inner, ss, reps)] + L[k + 1:]
    return L, lines


@harness(params=[{'n': 2, 'sub': s, 'exp': e} for s in (False, True) for e in (True, False)], thorough_params=[{'n': 3, 'sub': s, 'exp': e} for s in (False, True) for e in (True, False)], modules=[], logic='QF_FD',
         encodes=['Circuit.str', '_opSeqToStr', 'Label.__str__', 'CircuitLabel.__str__', 'LabelTupTup.__str__', 'Circuit.__init__(stringrep)', 'Circuit.__init__(str)', 'CircuitParser.parse'],
         bounds='2 layers x 3 lines of every pattern (3 thorough), arguments, times, two line-label conventions, one repeated sub-circuit, extra idle lines')
def roundtrip(cx):
    L, lines = circuits(cx, cx.p['n'], PATS, cx.p['sub'])
    extra = cx.choice('extra', ['auto', lines, lines + ('Q9',)])
    c = Circuit(L, extra, expand_subcircuits=cx.p['exp'])
    txt = c.str
    d = Circuit(None, stringrep=txt, expand_subcircuits=cx.p['exp'])
    cx.check(d.line_labels == c.line_labels, "line labels of %s" % txt)
    cx.check(same_layers(d, c), "layers of %s" % txt)
    if cx.p['exp'] or not cx.p['sub']:
        cx.check(d == c and hash(d) == hash(c), "equality of %s" % txt)
    e = Circuit(txt, expand_subcircuits=cx.p['exp'])
    cx.check(same_layers(e, c) and e.line_labels == c.line_labels, "circuit built from the text %s" % txt)
    f = Circuit(L, extra, editable=True, expand_subcircuits=cx.p['exp'])
    cx.check(f.str == txt, "editable and static circuits print alike: %s %s" % (f.str, txt))
    g = Circuit(txt, extra, stringrep=txt, expand_subcircuits=cx.p['exp']) if extra != 'auto' else None
    cx.check(g is None or g == d, "check of a text against the labels")


def flat(l):
    """comparable content of a layer label"""
    if isinstance(l, CircuitLabel):
        inner = tuple(flat(x) for x in l.components)
        return ('C', inner, l.reps) if len(inner) > 1 else tuple(inner) * l.reps
    comps = l.components
    if len(comps) == 1 and not hasattr(l, 'xx') and comps[0] is l:
        return ('L', l.name, l.sslbls, l.args or (), l.time)
    if len(comps) == 1 and not isinstance(comps[0], CircuitLabel):
        k = comps[0]
        return ('L', k.name, k.sslbls, k.args or (), k.time)
    return ('P', tuple(flat(x) for x in comps))


def same_layers(a, b):
    return len(a.layertup) == len(b.layertup) and all(flat(x) == flat(y) for x, y in zip(a.layertup, b.layertup))
