"""P02: circuit rewrites keep what the circuit does (objects/circuit, objects/label)."""
import itertools
from symex.harness import harness, land, lor, lnot, limplies, ite, RANGE
from pygsti.objects.label import Label, CircuitLabel
from pygsti.objects.circuit import Circuit, CompressedCircuit
from checks.circ import NAMES, TIMES, ARGS, LINES, PATS, PATS2, same, gate, content, fixed, lab, layer_label, circuit, canon, gates_of, read, check_content, glines

LOGIC = 'QF_FD'
MODS = ['pygsti.objects.label', 'pygsti.objects.circuit', 'pygsti.tools.slicetools']
META = {'assumptions': ['circuits of up to 4 layers on 3 lines with symbolic names / arguments / times; sub-circuit nesting depth 2; one-qubit relations are the multiplication table of the '
                        'non-abelian group S3']}


def per_line(layers, lines=LINES):
    """what happens on each line, in order (two circuits with equal per-line sequences
    apply the same gates up to reordering of gates on disjoint lines)"""
    out = {l: [] for l in lines}
    for layer in layers:
        seen = set()
        for g in layer:
            for x in glines(g, lines):
                out[x].append(g)
    return out


def clash(layer, lines=LINES):
    seen = set()
    for g in layer:
        gl = glines(g, lines)
        if gl & seen:
            return True
        seen |= gl
    return False


def check_equiv(cx, got, want, msg, lines=LINES):
    a, b = per_line(got, lines), per_line(want, lines)
    for l in lines:
        cx.check(len(a[l]) == len(b[l]), msg + ": number of gates on line %s (%d, expected %d)" % (l, len(a[l]), len(b[l])))
        cx.check(same(a[l], b[l]), msg + ": gates on line %s in order" % l)
    for layer in got:
        cx.check(not clash(layer, lines), msg + ": two gates on one line in one layer")


@harness(params=[{'ed': False}, {'ed': True}], modules=MODS, logic=LOGIC, encodes=['Circuit.serialize'], bounds='3 layers x 3 lines')
def serialize(cx):
    C = content(cx, 'g', 3, PATS2[:5])
    c = circuit(C, editable=cx.p['ed'])
    r = c.serialize()
    R = read(r)
    want = [[g] for l in C for g in l] if not any(len(l) == 0 for l in C) else None
    check_equiv(cx, R, C, "serialize")
    for l in R:
        cx.check(len(l) <= 1, "serialised circuit has parallel gates")
    if want is not None:
        cx.check(same(R, want), "serialised order")
    cx.check(tuple(r.line_labels) == LINES, "lines")
    check_content(cx, c, C, "original changed")


@harness(params=[{'brk': b, 'adj': a, 'n': n} for b in (True, False) for a in (False, True) for n in (3,)] +
         [{'brk': True, 'adj': a, 'n': 5} for a in (False, True)], modules=MODS, logic=LOGIC, encodes=['Circuit.parallelize'], bounds='3 layers of up to 3 parallel gates; 5 serial layers')
def parallelize(cx):
    if cx.p['n'] == 5:
        C = content(cx, 'g', 5, [((0,),), ((1,),), ((0, 2),)], rich=False)
    else:
        C = content(cx, 'g', cx.p['n'], PATS2, rich=False)
    c = circuit(C)
    r = c.parallelize(can_break_labels=cx.p['brk'], adjacent_only=cx.p['adj'])
    R = read(r)
    check_equiv(cx, R, C, "parallelize")
    cx.check(tuple(r.line_labels) == LINES, "lines")
    if cx.p['adj']:
        # gates may not move through others: reading layer by layer gives the original order of layers
        flat = [g for l in R for g in l]
        orig = [g for l in C for g in l]
        cx.check(same(sorted([str(g[1]) for g in flat]), sorted([str(g[1]) for g in orig])), "gates")
        cx.check(same(flat, orig), "adjacent-only parallelisation reordered gates")
    elif cx.p['brk']:
        # as far left as possible
        depth, exp = {l: 0 for l in LINES}, 0
        base = 0
        for l in C:
            for g in l:
                gl = glines(g, LINES)
                p = max(depth[x] for x in gl) + 1
                for x in gl:
                    depth[x] = p
        cx.check(len(R) == max(list(depth.values()) + [0]), "parallelised circuit is not as shallow as possible")


def sub_layers(cx, nm, reps):
    """(label, reference layers, lines): a repeated sub-circuit on lines 0,1"""
    shape = cx.choice(nm + 's', ['one', 'two', 'par', 'idle'])
    a, b, c = gate(cx, nm + 'a', (0,)), gate(cx, nm + 'b', (1,)), gate(cx, nm + 'c', (0, 1))
    body = {'one': [[a]], 'two': [[a], [c]], 'par': [[a, b], [c]], 'idle': [[a], [], [b]]}[shape]
    ln = (0,) if shape == 'one' else (0, 1)
    return CircuitLabel('', tuple(layer_label(l) for l in body), ln, reps), body * reps, ln


@harness(params=[{'how': h} for h in ('single', 'parallel', 'nested', 'two')], modules=MODS, logic=LOGIC,
         encodes=['Circuit.expand_subcircuits', 'CircuitLabel.expand_subcircuits', 'LabelTupTup.expand_subcircuits', 'Circuit.__init__', 'CircuitLabel.depth', 'LabelTupTup.depth', 'Circuit.depth', 'Circuit.size',
                  'Circuit.nQgate_count'],
         bounds='sub-circuits of <=3 layers, 1-3 repetitions, alone / in parallel / nested / two in a row')
def expand(cx):
    reps = cx.choice('reps', [1, 2, 3])
    l1, b1, ln = sub_layers(cx, 's', reps)
    pre, post, side = gate(cx, 'pre', (0,)), gate(cx, 'post', (1, 0)), gate(cx, 'side', (2,))
    if cx.p['how'] == 'single':
        layers, ref = [lab(pre), l1, lab(post)], [[pre]] + b1 + [[post]]
    elif cx.p['how'] == 'parallel':
        layers, ref = [lab(pre), Label((l1, lab(side))), lab(post)], [[pre]] + [b1[0] + [side]] + b1[1:] + [[post]]
    elif cx.p['how'] == 'two':
        layers, ref = [l1, l1, lab(post)], b1 + b1 + [[post]]
    else:
        r2 = cx.choice('r2', [1, 2])
        l2 = CircuitLabel('', (lab(gate(cx, 'in', (1,))), l1), tuple(sorted(set(ln) | {1})), r2)
        layers, ref = [l2, lab(post)], ([[gate_again(l2)]] + b1) * r2 + [[post]]
    c = Circuit(layers, LINES, expand_subcircuits=False)
    cx.check(len(c) == len(layers), "unexpanded circuit keeps its layers")
    cx.check(c.depth() == len(ref), "depth counts the expanded layers")
    e = Circuit(layers, LINES, expand_subcircuits=True)
    check_content(cx, e, ref, "expanding at construction", LINES)
    cx.check(e.depth() == len(ref) and e.num_layers() == len(ref), "depth of the expanded circuit")
    ed = Circuit(layers, LINES, editable=True, expand_subcircuits=False)
    cx.check(ed.depth() == len(ref), "depth of the editable circuit")
    ed.expand_subcircuits()
    check_content(cx, ed, ref, "expanding in place", LINES)
    for x in (e, c):
        cx.check(x.size() == sum(len(g[1]) for l in ref for g in l), "size")
        cx.check(x.twoQgate_count() == sum(1 for l in ref for g in l if len(g[1]) == 2), "two-qubit gate count")
        cx.check(x.multiQgate_count() == sum(1 for l in ref for g in l if len(g[1]) >= 2), "multi-qubit gate count")
        cx.check(x.nQgate_count(1) == sum(1 for l in ref for g in l if len(g[1]) == 1), "one-qubit gate count")
    s = c.serialize()
    check_equiv(cx, read(s), ref, "serialising a circuit with sub-circuits")
    p = c.parallelize()
    check_equiv(cx, read(p), ref, "parallelising a circuit with sub-circuits")


def gate_again(l2):
    return gates_of(l2.components[0])[0]


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit.factorize_repetitions', 'Circuit.expand_subcircuits'], bounds='4-5 layers, repetition decided by symbolic equality of the layers')
def factorize(cx):
    n = cx.choice('n', [3, 4])
    C = content(cx, 'g', n, [((0,),), ((0,), (1,)), ()], rich=False)
    c = circuit(C, editable=True)
    c.factorize_repetitions()
    full = []
    for l in c.layertup:
        full.extend(l.expand_subcircuits())
    cx.check(len(full) == n, "factorising changed the number of (expanded) layers: %d, expected %d" % (len(full), n))
    cx.check(same([canon(gates_of(x)) for x in full], [canon(l) for l in C]), "factorised circuit expands to the original layers")
    layers = list(c.layertup)
    for a, b in zip(layers, layers[1:]):
        cx.check(lnot(same(canon(gates_of(a)), canon(gates_of(b)))), "adjacent equal layers were not factorised")
    c.expand_subcircuits()
    check_content(cx, c, C, "factorise and expand", LINES)


# the non-abelian group S3 as one-qubit gates: name -> permutation
S3 = {'Ga': (1, 0, 2), 'Gb': (0, 2, 1), 'Gc': (2, 1, 0), 'Gd': (1, 2, 0), 'Ge': (2, 0, 1)}
INV = {v: k for k, v in S3.items()}


def comp(p, q):
    return tuple(q[p[i]] for i in range(3))


REL = {(a, b): INV.get(comp(S3[a], S3[b])) for a in S3 for b in S3}


def group_words(layers, lines):
    """per line: alternating products of one-qubit gates and multi-qubit gates, products in S3 (time order)"""
    out = {l: [(0, 1, 2)] for l in lines}
    for layer in layers:
        for g in layer:
            gl = glines(g, lines)
            if len(gl) == 1 and not g[2] and g[1] is not None:
                x, = gl
                out[x][-1] = comp(out[x][-1], S3[cval(g[0])])
            else:
                for x in gl:
                    out[x].extend([g, (0, 1, 2)])
    return out


def cval(x):
    return x.conc() if hasattr(x, 'conc') else x


@harness(params=[{'rel': 'full', 'n': 3, 'pat': 0}, {'rel': 'full', 'n': 3, 'pat': 1}, {'rel': 'inv', 'n': 4, 'pat': 2}, {'rel': None, 'n': 4, 'pat': 0}, {'rel': None, 'n': 3, 'pat': 3}, {'rel': 'full', 'n': 3, 'pat': 4}],
         modules=MODS, logic=LOGIC, limit=200, encodes=['Circuit.compress_depth', 'Circuit.combine_oneQgates', 'Circuit.shift_gates_forward', 'Circuit.delete_idle_layers'],
         bounds='3-4 layers on 2-3 lines, one-qubit gate names symbolic over 2-3 elements of S3, all or only inverse relations')
def compress(cx):
    names = [['Ga', 'Gb', 'Gd'], ['Gd', 'Ge'], ['Ga', 'Gd', 'Ge'], ['Ga', 'Gb'], ['Ga', 'Gd']][cx.p['pat']]
    lines = (0, 1)
    pats = [[((0,),), ((0, 1),), ()], [((0,),), ((1,), (0,)), (None,)], [((0,),), ((1,),)], [(), ((0,),), ((0, 1),), ((1,), (0,)), (None,)],
            [(('arg', 0),), ((0,),), ((1,),)]][cx.p['pat']]
    C = []
    for i in range(cx.p['n']):
        layer = []
        for k, ls in enumerate(cx.choice('p%d' % i, pats)):
            if ls is not None and ls and ls[0] == 'arg':
                layer.append(('Grot', (0,), (cx.fd('a%d' % i, ARGS),), 0.0))
            elif ls is not None and len(ls) == 1:
                layer.append((cx.fd('n%d%d' % (i, k), names), ls, (), 0.0))
            else:
                layer.append(('Gcnot' if ls else 'Gall', ls, (), 0.0))
        C.append(layer)
    c = circuit(C, lines, editable=True)
    rel = {'full': REL, 'inv': {k: v for k, v in REL.items() if v is None}, None: None}[cx.p['rel']]
    c.compress_depth(oneQgate_relations=None if rel is None else cx.dict(rel), verbosity=0)
    R = read(c)
    if rel is None:
        check_equiv(cx, R, C, "depth compression", lines)
    else:
        for l in R:
            cx.check(not clash(l, lines), "two gates on one line in one layer")
        a, b = group_words(R, lines), group_words(C, lines)
        for l in lines:
            cx.check(len(a[l]) == len(b[l]) and bool(same(a[l], b[l])), "depth compression changed the gates on line %s" % l)
    cx.check(len(R) <= len(C), "compression does not add layers")
    for l in R:
        cx.check(len(l) > 0, "empty layers are removed")


@harness(params=[{'ed': e} for e in (False, True)], modules=MODS, logic=LOGIC, encodes=['Circuit.get_layer', 'Circuit.get_layer_label', 'Circuit.get_layer_with_idles', 'Circuit.get_layer_label_with_idles', 'Circuit.num_layers', 'Circuit.depth',
                                              'Circuit.width', 'Circuit.size', 'Circuit.twoQgate_count', 'Circuit.nQgate_count', 'Circuit.multiQgate_count', 'Circuit.number_of_lines'],
         bounds='2 layers x 3 lines')
def padding_and_counts(cx):
    C = content(cx, 'g', 2, PATS)
    c = circuit(C, editable=cx.p['ed'])
    for j in range(2):
        cx.check(same([canon(gates_of(c.get_layer_label(j)))], [canon(C[j])]), "get_layer_label")
        cx.check(same([canon(gates_of(c.get_layer(j)))], [canon(C[j])]), "get_layer")
        used = set()
        for g in C[j]:
            used |= glines(g, LINES)
        want = C[j] + [('I', (x,), (), 0.0) for x in LINES if x not in used]
        cx.check(same([canon(gates_of(c.get_layer_label_with_idles(j)))], [canon(want)]), "idle padding (label)")
        cx.check(same([canon(gates_of(c.get_layer_with_idles(j, 'I')))], [canon(want)]), "idle padding")
    cx.check(c.num_layers() == 2 and c.depth() == 2 and len(c) == 2, "depth")
    cx.check(c.width() == 3 and c.number_of_lines() == 3, "width")
    cx.check(c.size() == sum(len(glines(g, LINES)) for l in C for g in l), "size")
    for q in (1, 2, 3):
        cx.check(c.nQgate_count(q) == sum(1 for l in C for g in l if g[1] is not None and len(g[1]) == q), "nQgate_count")
    cx.check(c.twoQgate_count() == c.nQgate_count(2), "twoQgate_count")
    cx.check(c.multiQgate_count() == sum(1 for l in C for g in l if g[1] is not None and len(g[1]) > 1), "multiQgate_count")
    for ill in range(2):
        cx.check_raises(lambda: c.get_layer_label(2), "layer out of range")


@harness(params=[{'mode': m} for m in ('dict', 'unchanged', 'missing')], modules=MODS, logic=LOGIC, encodes=['Circuit.change_gate_library', 'Circuit.insert_labels_into_layers'],
         bounds='2 layers, replacement circuits of 0-2 layers per gate; every occurrence pattern')
def library(cx):
    C = []
    pats = [((0,),), ((0,), (1,)), ((0, 1),), ()]
    for i in range(2):
        C.append([(cx.choice('n%d%d' % (i, k), ['Gx', 'Gy']) if len(ls) == 1 else 'Gc', ls, (), 0.0) for k, ls in enumerate(cx.choice('p%d' % i, pats))])
    lines = (0, 1)
    tmpl = {('Gx', (0,)): [[('Ga', (0,), (), 0.0)], [('Gb', (0,), (), 0.0)]], ('Gx', (1,)): [[('Gb', (1,), (), 0.0)]],
            ('Gy', (0,)): [], ('Gc', (0, 1)): [[('Ga', (0,), (), 0.0), ('Gb', (1,), (), 0.0)], [('Gcz', (0, 1), (), 0.0)]]}
    if cx.p['mode'] == 'dict':
        tmpl[('Gy', (1,))] = [[('Ga', (1,), (), 0.0)], [('Gd', (1,), (), 0.0)]]
    comp_ = {Label(k[0], k[1]): Circuit([layer_label(l) for l in v], lines) for k, v in tmpl.items()}
    c = circuit(C, lines, editable=True)
    missing = any((g[0], g[1]) not in tmpl for l in C for g in l)
    if cx.p['mode'] == 'missing' and missing:
        cx.check_raises(lambda: c.change_gate_library(comp_), "gates without a compilation must be refused")
        return
    dc = cx.choice('dc', [False, True])
    c.change_gate_library(comp_, allow_unchanged_gates=(cx.p['mode'] == 'unchanged'), depth_compression=dc)
    want = []
    for l in C:
        for g in l:
            want.extend(tmpl.get((g[0], g[1]), [[g]]))
    check_equiv(cx, read(c), want, "changed gate library", lines)


@harness(params=[{'ed': e} for e in (False, True)], modules=MODS, logic=LOGIC, encodes=['Circuit.replace_layers_with_aliases', 'Circuit.replace_layer'], bounds='3 layers, two aliases of 0-2 layers, one using the other')
def aliases(cx):
    names = [cx.choice('n%d' % i, ['A', 'B', 'Gx']) for i in range(3)]
    c = Circuit([Label(n) for n in names], (0, 1), editable=cx.p['ed'])
    ea = cx.choice('ea', [[], ['Gy'], ['Gy', 'Gz'], ['Gy', 'B']])
    eb = ['Gz', 'Gw']
    al = {Label('A'): Circuit([Label(n) for n in ea], (0, 1)), Label('B'): Circuit([Label(n) for n in eb], (0, 1))}
    r = c.replace_layers_with_aliases(al)
    want = []
    for n in names:
        want += ea if n == 'A' else eb if n == 'B' else [n]
    want = [m for n in want for m in (eb if n == 'B' else [n])]
    cx.check([l.name for l in r.layertup] == want, "alias expansion")
    cx.check(tuple(r.line_labels) == (0, 1), "lines")
    cx.check([l.name for l in c.layertup] == names, "original changed")
    cx.check(c.replace_layers_with_aliases(None) == c, "no aliases")


@harness(params=[{'n': n, 'mx': mx} for n in (0, 1, 4, 6) for mx in (1, 2, 3)], modules=MODS, logic=LOGIC,
         encodes=['CompressedCircuit.compress_op_label_tuple', 'CompressedCircuit.expand_op_label_tuple', 'CompressedCircuit._getNumPeriods', 'CompressedCircuit.expand'],
         bounds='all gate strings of length <=6 over 2 letters (8 thorough), periods up to 3', thorough_params=[{'n': 8, 'mx': 3}, {'n': 7, 'mx': 4}])
def compressed(cx):
    n = cx.p['n']
    t = tuple(cx.fd('g%d' % i, ['Gx', 'Gy']) for i in range(n))
    for mn in (0, 3, 20):
        z = CompressedCircuit.compress_op_label_tuple(t, minLenToCompress=mn, maxPeriodToLookFor=cx.p['mx'])
        r = CompressedCircuit.expand_op_label_tuple(z)
        cx.check(len(r) == n, "length after compressing and expanding")
        cx.check(same(tuple(r), t), "compressed circuit expands to something else")


@harness(modules=MODS, logic=LOGIC, encodes=['CompressedCircuit.__init__', 'CompressedCircuit.expand', 'Circuit.to_pythonstr', 'Circuit.from_pythonstr'], bounds='4-6 layers')
def compressed_circuit(cx):
    n = cx.choice('n', [0, 4, 6])
    names = [cx.choice('n%d' % i, ['Gx', 'Gy']) for i in range(n)]
    c = Circuit([Label(x, (0,)) for x in names], (0, 1))
    r = CompressedCircuit(c, minLenToCompress=3, maxPeriodToLookFor=3).expand()
    cx.check(r == c and tuple(r.line_labels) == (0, 1), "CompressedCircuit round trip")
    d = Circuit([Label(x) for x in names])
    ops = [Label('Gx'), Label('Gy')]
    p = d.to_pythonstr(ops)
    cx.check(p == ''.join('A' if x == 'Gx' else 'B' for x in names), "python string")
    cx.check(Circuit.from_pythonstr(p, ops) == d, "python string round trip")


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit.map_state_space_labels', 'Circuit.map_state_space_labels_inplace', 'Circuit.tensor_circuit'], bounds='2 layers, every permutation of 3 lines')
def map_back(cx):
    C = content(cx, 'g', 2, PATS2)
    perm = cx.choice('perm', list(itertools.permutations((0, 1, 2))) + [('a', 'b', 'c'), (2, 'x', 0)])
    f = dict(zip(LINES, perm))
    b = {v: k for k, v in f.items()}
    c = circuit(C)
    r = c.map_state_space_labels(f).map_state_space_labels(b)
    check_content(cx, r, C, "mapping lines there and back", LINES)
    e = circuit(C, editable=True)
    e.map_state_space_labels_inplace(f)
    check_content(cx, e, [[(g[0], None if g[1] is None else tuple(f[x] for x in g[1])) + g[2:] for g in l] for l in C], "mapping lines", perm)
    e.map_state_space_labels_inplace(b)
    check_content(cx, e, C, "mapping lines there and back in place", LINES)
