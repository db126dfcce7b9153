"""P01: circuit editing touches exactly the addressed layers and lines (objects/circuit)."""
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects.label import Label, CircuitLabel
from pygsti.objects import circuit as CM
from pygsti.objects.circuit import Circuit
from checks.circ import (fixed, NAMES, TIMES, ARGS, LINES, PATS, PATS2, same, gate, content, lab, layer_label, circuit, canon, gates_of, read,
                         check_content, glines)

LOGIC = 'QF_FD'
MODS = ['pygsti.objects.label', 'pygsti.objects.circuit', 'pygsti.tools.slicetools']
META = {'assumptions': ['circuits of up to 3 layers on 3 lines; 7 occupation patterns per layer (empty, single, pair, parallel, global); gate names from 3 letters, '
                        'one argument from 3 values or none, times from 3 values, all symbolic']}

LAYERARGS = [0, 1, -1, None, slice(0, 2), slice(1, None), slice(None, None), slice(None, 1), [0], [1, 0], (0, 1), slice(0, 0), []]
LINEARGS = [None, 0, (0,), [1, 2], (0, 1), (2, 0), slice(0, 2), slice(None, None), (0, 1, 2)]


def layer_idx(a, n):
    if a is None:
        return list(range(n))
    if isinstance(a, slice):
        return list(range(n))[a]
    return list(a) if isinstance(a, (list, tuple)) else [a]


def line_set(a):
    if a is None or a == slice(None, None):
        return LINES
    if isinstance(a, slice):
        return tuple(range(a.start, a.stop))
    return tuple(a) if isinstance(a, (list, tuple)) else (a,)


@harness(params=[{'ed': ed, 'via': v} for ed in (False, True) for v in ('get', 'item', 'loose')], modules=MODS, logic=LOGIC,
         encodes=['Circuit.get_labels', 'Circuit.__getitem__', 'Circuit._proc_layers_arg', 'Circuit._proc_lines_arg', 'Circuit._proc_key_arg', 'Circuit._layer_components'],
         bounds='2 layers x 3 lines, 13 layer arguments x 9 line arguments')
def read_block(cx):
    C = content(cx, 'g', 2, PATS2 if cx.tier == 'thorough' else [(), ((0,), (1, 2)), (None,)])
    c = circuit(C, editable=cx.p['ed'])
    la, li = cx.choice('which', [(a, b) for a in LAYERARGS for b in LINEARGS
                                 if cx.tier == 'thorough' or a in (0, slice(0, 2), None) or b in (None, (0, 1))])
    idx, lines = layer_idx(la, 2), line_set(li)
    strict = cx.p['via'] != 'loose'
    if cx.p['via'] == 'item':
        r = c[la] if li is None and not isinstance(la, tuple) else c[la, li]
    else:
        r = c.get_labels(la, li, strict=strict)
    want = [[g for g in C[i] if (glines(g, LINES) <= set(lines) if strict else glines(g, LINES) & set(lines))] for i in idx]
    if isinstance(la, int):
        cx.check(isinstance(r, Label), "single layer gives a label")
        cx.check(same([canon(gates_of(r))], [canon(want[0])]), "label of one layer")
    else:
        cx.check(isinstance(r, Circuit), "layer range gives a circuit")
        check_content(cx, r, want, "block read", lines if strict else None)
        cx.check(r._static == (not cx.p['ed']), "static-ness of the block")
    check_content(cx, c, C, "reading changed the circuit", LINES)


def rect_clear(C, idx, lines):
    """content with gates on (idx, lines) removed; None if a gate straddles"""
    out = [list(l) for l in C]
    for i in idx:
        keep = []
        for g in out[i]:
            gl = glines(g, LINES)
            if gl & set(lines):
                if not gl <= set(lines):
                    return None
            else:
                keep.append(g)
        out[i] = keep
    return out


@harness(params=[{'lines': l} for l in (None, 0, (0, 1), [1, 2])], modules=MODS, logic=LOGIC,
         encodes=['Circuit.set_labels', 'Circuit.__setitem__', 'Circuit._clear_labels', '_label_to_nested_lists_of_simple_labels'],
         bounds='2 layers x 3 lines, layer argument int / list / slice, new gates on the addressed lines or unlabelled')
def set_block(cx):
    th = cx.tier == 'thorough'
    C = content(cx, 'g', 2, PATS2 if th else [((0,), (1, 2)), (), ((2,),)], rich=th)
    c = circuit(C, editable=True)
    la = cx.choice('la', [0, 1, slice(0, 2), [1, 0], slice(1, 2), None] if th else [1, slice(0, 2), [1, 0], None])
    lines = line_set(cx.p['lines'])
    idx = layer_idx(la, 2)
    pats = [(), ((lines[0],),), ((lines[-1],),), (None,)] + ([((lines[0],), (lines[1],)), ((lines[1], lines[0]),)] if len(lines) > 1 else [])
    N = [[gate(cx, 'w%d%d' % (i, k), ls) for k, ls in enumerate(cx.choice('wp%d' % i, pats if i == 0 or th else pats[-2:]))] for i in range(len(idx))]
    new = [layer_label(l) for l in N]
    unl = [[(g[0], (tuple(lines) if cx.p['lines'] is not None else None) if g[1] is None else g[1], g[2], g[3]) for g in l] for l in N]
    want = rect_clear(C, idx, lines)
    if want is None:
        cx.check_raises(lambda: c.set_labels(new[0] if isinstance(la, int) else new, la, cx.p['lines']), "writing over half a gate must be refused")
        return
    for i, l in zip(idx, unl):
        want[i] = want[i] + l
    if la == 0 or la == slice(0, 2):
        c.set_labels(new[0] if isinstance(la, int) else new, la, cx.p['lines'])
    elif cx.p['lines'] is None:
        c[la] = new[0] if isinstance(la, int) else new
    else:
        c[la, cx.p['lines']] = new[0] if isinstance(la, int) else new
    check_content(cx, c, want, "block write", LINES)


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit.set_labels', 'Circuit.as_label'], bounds='writing a 2-line circuit of 2 layers into a block / as one sub-circuit label / beyond the end')
def set_circuit(cx):
    C = content(cx, 'g', 2, [(), ((2,),), ((0,),)], rich=False)
    D = content(cx, 'd', 2, [(), ((0,),), ((0, 1),)])
    c = circuit(C, editable=True)
    d = circuit(D, (0, 1), editable=cx.choice('ded', [False, True]))
    how = cx.choice('how', ['block', 'label', 'grow'])
    if how == 'block':
        c[0:2, (0, 1)] = d
        check_content(cx, c, [[g for g in C[i] if g[1] == (2,)] + D[i] for i in range(2)], "circuit into block", LINES)
    elif how == 'label':
        c[1, (0, 1)] = d
        got = read(c)
        cx.check(len(got) == 2 and same([canon(got[0])], [canon(C[0])]), "other layer unchanged")
        rest = [g for g in got[1] if not isinstance(g[0], tuple)]
        subs = [g for g in got[1] if isinstance(g[0], tuple)]
        cx.check(same(canon(rest), canon([g for g in C[1] if g[1] == (2,)])), "other lines unchanged")
        cx.check(len(subs) == 1 and subs[0][1] == (0, 1) and subs[0][0][2] == 1, "one sub-circuit on the addressed lines")
        cx.check(same([list(x) for x in subs[0][0][3]], [canon(l) for l in D]), "content of the sub-circuit")
    else:
        new = [layer_label(l) for l in D] + [Label('Gz', 1)]
        c.set_labels(new, None, None)
        check_content(cx, c, D + [[('Gz', (1,), (), 0.0)]], "writing more layers than there are", LINES)


@harness(params=[{'n': n, 'lines': l} for n in (1, 2) for l in (None, (0,), (0, 1), [2])], modules=MODS, logic=LOGIC,
         encodes=['Circuit.insert_idling_layers', 'Circuit.append_idling_layers'], bounds='2 layers x 3 lines (3 layers thorough), every insert position, 1-2 layers, all or some lines')
def insert_idle(cx):
    L = 3
    C = content(cx, 'g', L, PATS2[:5] if cx.p['lines'] is not None else PATS2[1:4], rich=False)
    c = circuit(C, editable=True)
    n = cx.p['n']
    at = cx.choice('at', [None, 0, 1, 2, -1, 3])
    pos = L if at is None else (at if at >= 0 else L + at)
    lines = cx.p['lines']
    if lines is None:
        want = C[:pos] + [[] for _ in range(n)] + C[pos:]
    else:
        want = [list(l) for l in C] + [[] for _ in range(n)]
        for i in range(pos, L):
            for g in C[i]:
                gl = glines(g, LINES)
                if gl & set(lines) and not gl <= set(lines):
                    cx.check_raises(lambda: c.insert_idling_layers(at, n, lines), "shifting half a gate must be refused")
                    return
        for i in range(pos, L):
            for g in C[i]:
                if glines(g, LINES) & set(lines):
                    want[i].remove(g)
                    want[i + n].append(g)
    if at is None and cx.choice('app', [False, True]):
        c.append_idling_layers(n, lines)
    else:
        c.insert_idling_layers(at, n, lines)
    # trailing empty layers are allowed to remain
    check_content(cx, c, want, "idling layers inserted", LINES)


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit.insert_labels_into_layers', 'Circuit.insert_layer', 'Circuit.insert_circuit', 'Circuit.append_circuit', 'Circuit.prefix_circuit',
                                              'Circuit.replace_layer_with_circuit'],
         bounds='2-layer circuits, every position, 1-2 inserted layers')
def insert_layers(cx):
    th = cx.tier == 'thorough'
    C = content(cx, 'g', 2, [(), ((0,),), ((0,), (1, 2)), (None,)] if th else [(), ((0,), (1, 2))], rich=False)
    c = circuit(C, editable=True)
    how = cx.choice('how', ['labels', 'layer', 'circuit', 'append', 'prefix', 'replace', 'sub', 'super'])
    if how == 'layer':
        D = content(cx, 'd', 1, PATS2)
        at = cx.choice('at', [0, 1, 2])
        c.insert_layer(layer_label(D[0]) if D[0] else [], at)
        want = C[:at] + D + C[at:]
    else:
        D = content(cx, 'd', 2, [(), ((1,),), ((0,), (2,)), ((0, 1),)] if th else [(), ((0, 1), (2,))], rich=th)
        at = cx.choice('at', [0, 1, 2]) if how in ('labels', 'circuit') else {'append': 2, 'prefix': 0}.get(how, 1)
        d = circuit(D, editable=cx.choice('ded', [False, True]))
        if how == 'labels':
            c.insert_labels_into_layers([layer_label(l) for l in D], at)
        elif how == 'circuit':
            c.insert_circuit(d, at)
        elif how == 'append':
            c.append_circuit(d)
        elif how == 'prefix':
            c.prefix_circuit(d)
        elif how == 'replace':
            c.replace_layer_with_circuit(d, at)
        elif how == 'sub':       # circuit on fewer lines
            D = [[(g[0], (1,), g[2], g[3]) for g in l[:1]] for l in D]
            d = circuit(D, (1,))
            c.insert_circuit(d, at)
        else:                    # more lines, the additional one idling or not
            busy = cx.choice('busy', [False, True])
            d = circuit(D if not busy else D + [[('Gx', (7,), (), 0.0)]], (0, 1, 2, 7))
            if busy:
                cx.check_raises(lambda: c.insert_circuit(d, at), "inserting gates on lines this circuit does not have must be refused")
                return
            c.insert_circuit(d, at)
        want = C[:at] + D + (C[at + 1:] if how == 'replace' else C[at:])
        check_content(cx, d, D, "inserted circuit changed")
    check_content(cx, c, want, how, LINES)


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit.insert_labels_into_layers', 'Circuit.set_labels', 'Circuit.insert_idling_layers'],
         bounds='3-layer circuits, insertion of 1-2 layers on some lines only')
def insert_partial(cx):
    C = content(cx, 'g', 2, [(), ((0,),), ((0,), (1, 2)), ((2,), (1,))], rich=False)
    c = circuit(C, editable=True)
    n = cx.choice('n', [1, 2])
    at = cx.choice('at', [0, 1])
    D = [[gate(cx, 'd%d' % i, (0,))] for i in range(n)]
    c.insert_labels_into_layers([layer_label(l) for l in D], at, (0,))
    want = [[g for g in l if g[1] != (0,)] for l in C] + [[] for _ in range(n)]
    for i in range(2):
        for g in C[i]:
            if g[1] == (0,):
                want[i + n if i >= at else i].append(g)
    for k in range(n):
        want[at + k].append(D[k][0])
    check_content(cx, c, want, "labels inserted on one line", LINES)


@harness(params=[{'how': h} for h in ('idle', 'idle_app', 'labels', 'labels_app', 'circ', 'tensor', 'tensor_order', 'clash')],
         modules=MODS, logic=LOGIC, encodes=['Circuit.insert_idling_lines', 'Circuit.append_idling_lines', 'Circuit.insert_labels_as_lines', 'Circuit.append_labels_as_lines', 'Circuit.tensor_circuit'],
         bounds='2-layer circuit on 3 lines; 0..3-layer circuit on 2 new lines', limit=300)
def lines_in(cx):
    C = content(cx, 'g', 2, [(), ((0,),), ((0, 1),), ((1,), (2,))] if cx.tier == 'thorough' else [(), ((1,), (2,))], rich=False)
    c = circuit(C, editable=True)
    how = cx.p['how']
    at = cx.choice('at', [0, 1, None]) if how in ('idle', 'labels') else None
    pos = 3 if at is None else at
    new = (7, 8)
    lines = LINES[:pos] + new + LINES[pos:]
    if how in ('idle', 'idle_app'):
        if how == 'idle':
            c.insert_idling_lines(at, new)
        else:
            c.append_idling_lines(list(new))
        check_content(cx, c, C, "idling lines", lines)
        return
    n = cx.choice('n', [1, 2, 3])
    D = [[gate(cx, 'd%d%d' % (i, k), ls) for k, ls in enumerate(cx.choice('dp%d' % i, [((7,),), ((7, 8),), ((8,), (7,))] if i != 1 else [(), ((8,),)]))] for i in range(n)]
    d = circuit(D, new, editable=cx.choice('ded', [False, True]) if how in ('circ', 'tensor') else False)
    layer0 = 0
    if how == 'clash':
        cx.check_raises(lambda: c.tensor_circuit(circuit(C, LINES)), "tensoring circuits that share lines must be refused")
        return
    if how == 'labels':
        layer0 = cx.choice('l0', [0, 1])
        c.insert_labels_as_lines([layer_label(l) for l in D], layer0, at, new)
    elif how == 'labels_app':
        c.append_labels_as_lines([layer_label(l) for l in D], line_labels=new)
    elif how == 'circ':
        c.insert_labels_as_lines(d)
    elif how == 'tensor':
        c.tensor_circuit(d)
    else:
        lines = (8, 0, 7, 1, 2)
        c.tensor_circuit(d, line_order=lines)
    want = [list(l) for l in C] + [[] for _ in range(max(0, layer0 + n - 2))]
    for i in range(n):
        want[layer0 + i] = want[layer0 + i] + D[i]
    check_content(cx, c, want, how, lines)
    check_content(cx, d, D, "added circuit changed", new)


@harness(params=[{'how': h} for h in ('clear', 'clear_str', 'layers', 'del', 'lines', 'lines_str', 'dellines', 'idleline', 'all', 'setlines')],
         modules=MODS, logic=LOGIC, encodes=['Circuit.clear_labels', 'Circuit.delete_layers', 'Circuit.delete_lines', 'Circuit.__delitem__', 'Circuit.replace_with_idling_line', 'Circuit.clear',
                                              'Circuit.line_labels', 'Circuit.delete_idling_lines'],
         bounds='2-layer circuits; every subset argument')
def remove(cx):
    C = content(cx, 'g', 2, PATS if cx.tier == 'thorough' else [(), ((0, 2), (1,)), ((0,), (1,), (2,)), (None,)])
    c = circuit(C, editable=True)
    how = cx.p['how']
    if how in ('clear', 'clear_str'):
        la = cx.choice('la', [None, 0, 1, slice(0, 2), [1]])
        li = cx.choice('li', [None, 0, (0, 1), (2,)])
        idx, lines = layer_idx(la, 2), line_set(li)
        if how == 'clear':
            want = rect_clear(C, idx, lines)
            if want is None:
                cx.check_raises(lambda: c.clear_labels(la, li), "clearing half a gate must be refused", ValueError)
                return
            c.clear_labels(la, li)
        else:
            want = [[g for g in C[i] if i not in idx or not glines(g, LINES) & set(lines)] for i in range(2)]
            c.clear_labels(la, li, clear_straddlers=True)
        check_content(cx, c, want, how, LINES)
    elif how in ('layers', 'del'):
        la = cx.choice('la', [0, 1, -1, slice(0, 1), slice(0, 2), [0, 1], [1], None] if how == 'layers' else [0, 1, -1, slice(0, 1), slice(None, None)])
        if how == 'layers':
            c.delete_layers(la)
        else:
            del c[la]
        idx = [i % 2 for i in layer_idx(la, 2)]
        check_content(cx, c, [C[i] for i in range(2) if i not in idx], how, LINES)
    elif how in ('lines', 'lines_str', 'dellines'):
        li = cx.choice('li', [0, (0, 1), [2], (1,)])
        lines = set(line_set(li))
        hit = [[g for g in l if g[1] is not None and set(g[1]) & lines] for l in C]
        if how == 'lines' and any(not set(g[1]) <= lines for l in hit for g in l):
            cx.check_raises(lambda: c.delete_lines(li), "removing half a gate must be refused", ValueError)
            return
        if how == 'dellines':
            del c[None, li]
        else:
            c.delete_lines(li, delete_straddlers=(how == 'lines_str'))
        check_content(cx, c, [[g for g in l if g[1] is None or not set(g[1]) & lines] for l in C], how, [x for x in LINES if x not in lines])
    elif how == 'idleline':
        li = cx.choice('li', [0, 1])
        c.replace_with_idling_line(li)
        check_content(cx, c, [[g for g in l if li not in glines(g, LINES)] for l in C], how, LINES)
    elif how == 'all':
        c.clear()
        check_content(cx, c, [], how, LINES)
    else:
        new = cx.choice('nl', [(0, 1, 2), (2, 1, 0), (0, 1, 2, 7), (1, 2), (1,)])
        gone = set(LINES) - set(new)
        if any(g[1] is None for l in C for g in l) and gone:
            return   # global gates: which lines they lose is not specified
        hit = [g for l in C for g in l if set(g[1] or ()) & gone]
        if any(not set(g[1]) <= gone for g in hit):
            cx.check_raises(lambda: setattr(c, 'line_labels', new), "removing half a gate must be refused")
            return
        c.line_labels = new
        check_content(cx, c, [[g for g in l if not set(g[1] or ()) & gone] for l in C], how, new)


@harness(params=[{'ed': ed} for ed in (False, True)], modules=MODS, logic=LOGIC, encodes=['Circuit.is_line_idling', 'Circuit.get_idling_lines', 'Circuit.delete_idling_lines'],
         bounds='2-layer circuits, with and without declared idle layers')
def idling(cx):
    C = content(cx, 'g', 2, PATS, rich=False)
    c = circuit(C, editable=cx.p['ed'])
    il = cx.choice('idle', [None, 'Gz'])
    ill = None if il is None else [Label(il)]
    used = set()
    for l in C:
        for g in l:
            if not (il is not None and len(l) == 1 and g[1] is None and g[0] == il):
                used |= glines(g, LINES)
    for x in LINES:
        cx.check(bool(c.is_line_idling(x, ill)) == (x not in used), "is_line_idling")
    cx.check(tuple(c.get_idling_lines(ill)) == tuple(x for x in LINES if x not in used), "get_idling_lines")
    if cx.p['ed']:
        c.delete_idling_lines(ill)
        check_content(cx, c, C, "deleting idling lines changed gates", [x for x in LINES if x in used])


@harness(params=[{'ed': e} for e in ((False, False), (True, False), (False, True), (True, True))], modules=MODS, logic=LOGIC,
         encodes=['Circuit.__add__', 'Circuit.repeat', 'Circuit.__mul__', 'Circuit.__pow__', 'Circuit.copy', 'Circuit.reverse', 'Circuit.reorder_lines', 'Circuit.as_label', 'Circuit.__len__', 'Circuit.__iter__',
                  'Circuit.done_editing', 'Circuit.__eq__', 'Circuit.__hash__'],
         bounds='circuits of 0-2 layers; repetition 0-3')
def whole(cx):
    how = cx.choice('how', ['add', 'mul', 'copy', 'reverse', 'reorder', 'label'])
    n1, n2 = cx.choice('n1', [0, 1, 2]), cx.choice('n2', [0, 1, 2]) if how == 'add' else 0
    th = cx.tier == 'thorough'
    C, D = fixed(cx, 'g', n1, PATS2[:5]), fixed(cx, 'd', n2, [(), ((1,), (0,)), ((7,),)], 1)
    dl = (0, 1, 7)
    c, d = circuit(C, editable=cx.p['ed'][0]), circuit(D, dl, editable=cx.p['ed'][1])
    if how == 'add':
        r = c + d
        check_content(cx, r, C + D, "concatenation", LINES + (7,))
    elif how == 'mul':
        k = cx.choice('k', [0, 1, 2, 3])
        for r in (c * k, c ** k, c.repeat(k)):
            check_content(cx, r, C * k, "repetition", LINES)
        r = c.repeat(k, expand=False)
        if k > 1:
            cx.check(len(r) == 1 and tuple(r.line_labels) == LINES, "unexpanded repetition is one layer")
            g = read(r)[0]
            cx.check(len(g) == 1 and g[0][0][2] == k and same([list(x) for x in g[0][0][3]], [canon(l) for l in C]), "unexpanded repetition")
            full = []
            for x in r.layertup:
                full.extend(x.expand_subcircuits())
            cx.check(same([canon(gates_of(x)) for x in full], [canon(l) for l in C * k]), "expanding the repetition")
    elif how == 'copy':
        r = c.copy()
        check_content(cx, r, C, "copy", LINES)
        cx.check(r._static == c._static, "copy keeps editability")
        r2 = c.copy(editable=True)
        check_content(cx, r2, C, "editable copy", LINES)
        r2.insert_layer(Label('Gz', 2), 0)
        r2.append_idling_lines([9])
        if n1:
            r2[1] = Label('Gx', 0)
        check_content(cx, c, C, "editing a copy changed the original", LINES)
        r3 = c.copy(editable=False)
        check_content(cx, r3, C, "static copy", LINES)
    elif how == 'reverse':
        if not cx.p['ed'][0]:
            return
        c.reverse()
        check_content(cx, c, C[::-1], "reverse", LINES)
        return
    elif how == 'reorder':
        if not cx.p['ed'][0]:
            return
        c.reorder_lines((2, 0, 1))
        check_content(cx, c, C, "reorder", (2, 0, 1))
        cx.check_raises(lambda: c.reorder_lines((2, 0)), "reorder with missing lines")
        return
    else:
        l = c.as_label(2)
        cx.check(isinstance(l, CircuitLabel) and l.reps == 2 and tuple(l.sslbls) == LINES, "as_label")
        cx.check(same([canon(gates_of(x)) for x in l.components], [canon(x) for x in C]), "components of as_label")
    check_content(cx, c, C, "operand changed", LINES)
    check_content(cx, d, D, "operand changed", dl)
    cx.check(len(c) == n1 and len(list(c)) == n1, "length")
    if cx.p['ed'][0]:
        c.done_editing()
        check_content(cx, c, C, "done_editing", LINES)


MUT = [('set', lambda c: c.set_labels(Label('Gz', 1), 0)), ('item', lambda c: c.__setitem__(0, Label('Gz', 1))), ('idle', lambda c: c.insert_idling_layers(0, 1)),
       ('ins', lambda c: c.insert_labels_into_layers([Label('Gz', 1)], 0)), ('aslines', lambda c: c.insert_labels_as_lines([Label('Gz', 8)], 0, None, (8,))),
       ('clr', lambda c: c.clear_labels(0)), ('clear', lambda c: c.clear()), ('dell', lambda c: c.delete_layers([0])), ('dlin', lambda c: c.delete_lines([0], True)),
       ('delitem', lambda c: c.__delitem__(0)), ('layer', lambda c: c.insert_layer(Label('Gz', 1), 0)), ('tensor', lambda c: c.tensor_circuit(Circuit([Label('Gz', 8)], (8,)))),
       ('append', lambda c: c.append_circuit(c)), ('prefix', lambda c: c.prefix_circuit(c)), ('repl', lambda c: c.replace_layer_with_circuit(Circuit([Label('Gz', 1)], (0, 1, 2)), 0)),
       ('rename', lambda c: c.replace_gatename_inplace('Gx', 'Gz')), ('names', lambda c: c.map_names_inplace({'Gx': 'Gz'})), ('lmap', lambda c: c.map_state_space_labels_inplace({0: 1, 1: 0, 2: 2})),
       ('rev', lambda c: c.reverse()), ('comb', lambda c: c.combine_oneQgates({})), ('shift', lambda c: c.shift_gates_forward()), ('didle', lambda c: c.delete_idle_layers()),
       ('comp', lambda c: c.compress_depth()), ('fact', lambda c: c.factorize_repetitions()), ('exp', lambda c: c.expand_subcircuits()), ('lib', lambda c: c.change_gate_library({})),
       ('idleline', lambda c: c.replace_with_idling_line(0))]


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit (every editing method)'], bounds='1- and 2-layer static circuits')
def static_refuses(cx):
    C = content(cx, 'g', 2, [((0,), (1,)), ((0, 1),)])
    c = circuit(C)
    nm, f = MUT[cx.choice('mut', list(range(len(MUT))))]
    cx.check_raises(lambda: f(c), "%s on a static circuit must be refused" % nm)
    check_content(cx, c, C, "%s changed a static circuit" % nm)


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit.__eq__', 'Circuit.__hash__', 'Circuit.tup', 'Circuit.__lt__'], bounds='pairs of circuits of <=2 layers with symbolic names, lines and times')
def equality(cx):
    n1, n2 = cx.choice('n1', [1, 2]), cx.choice('n2', [1, 2])
    pats = [(), ((0,),), ((1,),), ((0,), (1,))]
    if cx.tier != 'thorough' and n1 + n2 > 2:
        pats = pats[1:]
    C, D = content(cx, 'g', n1, pats), content(cx, 'd', n2, pats if n1 + n2 < 4 else pats[-2:])
    l1, l2 = cx.choice('l1', [(0, 1), (0, 1, 2)]), cx.choice('l2', [(0, 1), (1, 0)])
    c, d = circuit(C, l1), circuit(D, l2)
    # times are not part of a label's identity (P04); everything else is
    eq = land(l1 == l2, same([[g[:3] for g in l] for l in C], [[g[:3] for g in l] for l in D]))
    r = c == d
    cx.check(limplies(r, eq), "circuits with different content compare equal")
    cx.check(limplies(eq, r), "circuits with equal content compare different")
    if eq:
        cx.check(hash(c) == hash(d), "equal circuits hash differently")
    e = circuit(C, l1, editable=True)
    cx.check(c == e, "static and editable circuit of the same content")


@harness(params=[{'ed': ed} for ed in (False, True)], modules=MODS, logic=LOGIC, encodes=['Circuit.replace_gatename', 'Circuit.replace_gatename_inplace', 'Circuit.replace_layer', 'Circuit.map_names_inplace',
                                                                                           'Circuit.map_state_space_labels', 'Circuit.map_state_space_labels_inplace'],
         bounds='2-layer circuits')
def renaming(cx):
    C = content(cx, 'g', 2, [(), ((0,),), ((0, 1), (2,)), (None,)] if cx.tier == 'thorough' else [((0,),), ((0, 1), (2,)), (None,)])
    c = circuit(C, editable=cx.p['ed'])
    how = cx.choice('how', ['name', 'name_in', 'layer', 'names_in', 'names_fn', 'lines', 'lines_in', 'lines_fn', 'lines_in_fn'])
    mut = how in ('name_in', 'names_in', 'lines_in', 'names_fn', 'lines_in_fn')
    if mut and not cx.p['ed']:
        return
    wl = LINES
    if how in ('name', 'name_in'):
        want = [[(ite(g[0] == 'Gx', 'Gq', g[0]) if False else ('Gq' if g[0] == 'Gx' else g[0]),) + g[1:] for g in l] for l in C]
        r = c.replace_gatename('Gx', 'Gq') if how == 'name' else c.replace_gatename_inplace('Gx', 'Gq')
    elif how in ('names_in', 'names_fn'):
        mp = {'Gx': 'Gy', 'Gy': 'Gx'}
        want = [[(mp['Gx'] if g[0] == 'Gx' else mp['Gy'] if g[0] == 'Gy' else g[0],) + g[1:] for g in l] for l in C]
        r = c.map_names_inplace(cx.dict(mp) if how == 'names_in' else (lambda n: 'Gy' if n == 'Gx' else 'Gx' if n == 'Gy' else None))
    elif how == 'layer':
        old, new = Label('Gx', 0), Label((('Gz', 1), ('Gy', 2)))
        want = []
        for l in C:
            if len(l) == 1 and l[0][1] == (0,) and l[0][0] == 'Gx' and len(l[0][2]) == 0:
                want.append(gates_of(new))
            else:
                want.append(l)
        r = c.replace_layer(old, new)
    else:
        mp = {0: 'a', 1: 2, 2: 0}
        want = [[(g[0], None if g[1] is None else tuple(mp[x] for x in g[1])) + g[2:] for g in l] for l in C]
        wl = tuple(mp[x] for x in LINES)
        f = mp if how in ('lines', 'lines_in') else (lambda x: mp[x])
        r = c.map_state_space_labels(f) if how in ('lines', 'lines_fn') else c.map_state_space_labels_inplace(f)
    if mut:
        r = c
    else:
        check_content(cx, c, C, "original changed", LINES)
    check_content(cx, r, want, how, wl)


@harness(modules=MODS, logic=LOGIC, encodes=['Circuit.str', 'Circuit.line_labels', 'Circuit.reorder_lines', 'Circuit.insert_idling_lines', 'Circuit.delete_idling_lines', 'Circuit.done_editing'],
         bounds='one-layer circuits; every way of changing lines')
def text_follows(cx):
    """the text of a circuit is the text of its current content, whatever happened before"""
    C = [[(n, ls, (), 0.0) for n, ls in zip(NAMES, cx.choice('p', [((0,),), ((0, 1),), ()]))]]
    ed = cx.choice('ed', [False, True])
    c = circuit(C, editable=ed)
    first = c.str
    how = cx.choice('how', ['relabel', 'reorder', 'idle', 'delidle'])
    if how == 'relabel':
        c.line_labels = (0, 1, 2, 7)
    elif how == 'reorder':
        c.reorder_lines((2, 1, 0))
    elif how == 'idle':
        c.append_idling_lines([7])
    else:
        c.delete_idling_lines()
    fresh = Circuit(c.layertup, c.line_labels)
    cx.check(c.str == fresh.str, "text %s is not the text of the content %s" % (c.str, fresh.str))
    d = c + c
    cx.check(d.str == Circuit(d.layertup, d.line_labels).str, "text of a sum")


PICKS = [[3, 0], [0, 2], [4, 1, 2], [1, 0, 3], [2, 4, 0, 1], (3, 1), slice(1, 4), slice(0, 5, 2), slice(3, 0, -1), [0, 1, 2, 3, 4]]


@harness(params=[{'op': o} for o in ('delete', 'clear', 'get', 'set')], modules=MODS, logic=LOGIC,
         encodes=['Circuit.delete_layers', 'Circuit.clear_labels', 'Circuit.get_labels', 'Circuit.set_labels', 'Circuit._proc_layers_arg'],
         bounds='5 layers of one gate on 3 lines (symbolic gate; line by position), 10 unordered / strided layer selections, 4 line selections')
def picks(cx):
    C = [[gate(cx, 'g%d' % i, (ln,))] for i, ln in enumerate((0, 1, 2, 0, 1))]
    pick = cx.choice('pick', PICKS)
    op = cx.p['op']
    c = circuit(C, editable=True)
    idx = layer_idx(pick, 5)
    lines = cx.choice('lines', [None, 0, (0, 1), [2, 1]]) if op != 'delete' else None
    L = line_set(lines)
    if op == 'delete':
        c.delete_layers(pick)
        check_content(cx, c, [l for i, l in enumerate(C) if i not in idx], "deleting several layers", LINES)
    elif op == 'clear':
        c.clear_labels(pick, lines)
        check_content(cx, c, [[] if i in idx and glines(l[0], LINES) <= set(L) else l for i, l in enumerate(C)], "clearing several layers", LINES)
    elif op == 'get':
        r = c.get_labels(pick, lines)
        check_content(cx, r, [[g for g in C[i] if glines(g, LINES) <= set(L)] for i in idx], "reading several layers", L)
        check_content(cx, c, C, "reading leaves the circuit", LINES)
    else:
        N = [gate(cx, 'n%d' % k, (L[0],)) for k in range(len(idx))]
        c.set_labels([lab(g) for g in N], pick, lines)
        want = [[] if i in idx and glines(l[0], LINES) <= set(L) else list(l) for i, l in enumerate(C)]
        for i, g in zip(idx, N):
            want[i] = want[i] + [g]
        check_content(cx, c, want, "writing several layers", LINES)
